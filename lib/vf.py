"""Shared machinery: running TLC, collecting behaviours, validating traces of the real code, evidence and verdicts.

Every check is  model (TLC explores specs/MC_*.tla)  ->  behaviours (JSON printed by TLC)  ->  replay in the real
code  ->  recorded trace  ->  TLC decides the trace against the same specification (specs/Trace_*.tla).
"""
import contextlib
import io
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True


class Machinery(Exception):
    """The check itself failed (exit 2): neither a pass nor a violation."""


class Unobservable(Exception):
    """What the code handed back cannot be read the way the property promises it can: a violation, and no history to
    give to TLC."""


class Hang(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Bound one call into the code under test."""
    def handler(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class quiet:
    """Swallow stdout/stderr of the code under test."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


_hangs = 0
# hangs of all workers: what hangs all over is not waited for again and again
_all_hangs = __import__('multiprocessing').get_context('fork').Value('i', 0)


_probe = False


def crashes(fn, a, k):
    """Whether the call brings its process down, tried out in a child."""
    pid = os.fork()
    if not pid:
        try:
            with quiet(), limit(10.0):
                fn(*a, **k)
        except BaseException:
            pass
        os._exit(0)
    return os.WIFSIGNALED(os.waitpid(pid, 0)[1])


def call(fn, *a, seconds=10.0, **k):
    """Run fn; returns ('ok', value) / ('err', 'ExcType') / ('hang', '')."""
    global _hangs
    if _probe and crashes(fn, a, k):
        return 'err', 'Crash'
    if _all_hangs.value >= 32:
        return 'hang', ''
    if _hangs >= 3:
        seconds = min(seconds, 1.0)
    try:
        with quiet(), limit(seconds):
            return 'ok', fn(*a, **k)
    except Hang:
        _hangs += 1
        with _all_hangs.get_lock():
            _all_hangs.value += 1
        return 'hang', ''
    except SystemExit:
        return 'err', 'SystemExit'
    except Exception as e:
        if os.environ.get('VF_TB'):
            traceback.print_exc(file=sys.__stderr__)
        return 'err', type(e).__name__


def rat(v, maxden=5000, tol=1e-9):
    """A float as the exact rational it stands for: [num, den, 1]; [0, 1, 0] when it is not close to one."""
    try:
        v = float(v)
    except Exception:
        return [0, 1, 0]
    if not math.isfinite(v):
        return [0, 1, 0]
    f = Fraction(v).limit_denominator(maxden)
    if abs(float(f) - v) > tol * max(1.0, abs(v)) or abs(f.numerator) >= 2 ** 31:
        return [0, 1, 0]
    return [f.numerator, f.denominator, 1]


def bump(r):
    """Another value in place of an observed one."""
    r[0], r[2] = r[0] + r[1], 1


def import_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')


# ---------------------------------------------------------------------------------------------------------- TLC
class TLCResult:
    pass


_STAT = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')
_SIMSTAT = re.compile(r'The number of states generated: ([\d,]+)')


def run_tlc(module, cfg, env=None, args=(), workers=8, timeout=800, heap='6g', defs=None):
    """Run TLC on specs/<module>.tla with the configuration text cfg, in a scratch directory."""
    scratch = tempfile.mkdtemp(prefix='vf_tlc_')
    try:
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, f), scratch)
        root = 'Run_' + module
        with open(os.path.join(scratch, root + '.tla'), 'w') as f:
            # constants are given as definitions: configuration files cannot express tuples
            f.write('---- MODULE %s ----\nEXTENDS %s\n' % (root, module))
            for k, v in (defs or {}).items():
                f.write('const_%s == %s\n' % (k, v))
                cfg += 'CONSTANT %s <- const_%s\n' % (k, k)
            f.write('====\n')
        with open(os.path.join(scratch, 'run.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s' % (heap, scratch)
        for k, v in (env or {}).items():
            e[k] = str(v)
        cmd = ['tlc', '-metadir', os.path.join(scratch, 'meta'), '-noGenerateSpecTE', '-deadlock',
               '-workers', str(workers), '-config', 'run.cfg'] + list(args) + [root + '.tla']
        outp = os.path.join(scratch, 'out')
        with open(outp, 'wb') as of:
            try:
                rc = subprocess.call(cmd, cwd=scratch, env=e, stdout=of, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery('TLC timeout on %s' % module)
        r = TLCResult()
        r.rc, r.emitted, other = rc, [], []
        with open(outp, errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    r.emitted.append(json.loads(json.loads(line)[2:]))
                else:
                    other.append(line)
        r.text = ''.join(other)
        m = _STAT.findall(r.text)
        if m:
            r.generated, r.distinct = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = _SIMSTAT.findall(r.text)
            r.generated = r.distinct = int(m[-1].replace(',', '')) if m else 0
        if rc != 0 or 'Error:' in r.text:
            i = r.text.find("Error:")
            raise Machinery("TLC failed on %s (rc %s):\n%s\n...\n%s" % (module, rc, r.text[i:i + 1500], r.text[-3000:]))
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%s' % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = {}
        self.samples = []
        self.assumptions = []
        self.violations = []       # (trace, reject)
        self.extra = {}
        self.lacking = 0
        self.outdir = os.path.join(VERIF, 'out', prop)

    def note(self, what):
        if os.environ.get('VF_TIME'):
            print('%6.1fs %s' % (time.time() - self.t0, what), file=sys.__stderr__)

    # -- exploration of the specification ------------------------------------------------------------------
    def model(self, module, constants=None, invariants=(), properties=(), spec='Spec', env=None, simulate=None,
              depth=None, workers=8, extra_cfg='', timeout=800):
        """Model check (or simulate) a configuration; returns the behaviours the model emitted."""
        cfg = ['SPECIFICATION ' + spec, 'CHECK_DEADLOCK FALSE']
        cfg += ['INVARIANT ' + i for i in invariants] + ['PROPERTY ' + p for p in properties]
        cfg.append(extra_cfg)
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20), '-seed', str(self.seed)]
            workers = 1
        r = run_tlc(module, '\n'.join(cfg) + '\n', env=env, args=args, workers=workers, timeout=timeout,
                    defs=constants)
        self.note('model ' + module)
        self.states += r.distinct
        self.transitions += r.generated
        name = module + (':sim' if simulate else '')
        self.models[name] = self.models.get(name, 0) + r.distinct
        if not r.distinct:
            raise Machinery('no states explored in ' + module)
        return r.emitted

    # -- conformance ------------------------------------------------------------------------------------------
    def validate(self, module, traces, canary=None, sub=None, env=None, timeout=800):
        """TLC decides every recorded trace. traces: list of {'ev': [...], ...}. canary: corrupted traces which
        must be rejected (they demonstrate on every run that the binding is live)."""
        canary = canary or []
        self.note('recorded %d traces' % len(traces))
        if not traces:
            raise Machinery('no traces recorded for ' + module)
        subs = sub or {}
        cfg = ['SPECIFICATION TKSpec', 'INVARIANT TKReport', 'CHECK_DEADLOCK FALSE']
        cfg += ['CONSTANT TInit <- %s' % subs.get('TInit', module[6:] + 'Init'),
                'CONSTANT TStep <- %s' % subs.get('TStep', module[6:] + 'Step'),
                'CONSTANT TVerdict <- %s' % subs.get('TVerdict', module[6:] + 'Verdict')]
        fd, path = tempfile.mkstemp(prefix='vf_trace_', suffix='.ndjson')
        try:
            with os.fdopen(fd, 'w') as f:
                for t in list(traces) + list(canary):
                    f.write(json.dumps({k: v for k, v in t.items() if not k.startswith('_')}) + '\n')
            e = dict(env or {})
            e['TRACE_FILE'] = path
            r = run_tlc(module, '\n'.join(cfg) + '\n', env=e, timeout=timeout, defs=subs.get('const'))
        finally:
            os.unlink(path)
        self.note('validated ' + module)
        rej = {x['tid'] - 1: x for x in r.emitted}
        n = len(traces)
        for k in range(len(canary)):
            if n + k not in rej:
                raise Machinery('canary %d of %s was accepted: the binding does not observe it' % (k, module))
        want = 0
        for k, t in enumerate(list(traces) + list(canary)):
            want += (rej[k]['i'] if k in rej else len(t['ev'])) + 1
        if r.distinct != want:
            raise Machinery('%s: %d states for %d events' % (module, r.distinct, want))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += n
        self.models[module] = self.models.get(module, 0) + r.distinct
        for k in sorted(rej):
            if k < n:
                self.violations.append((traces[k], dict(step=rej[k]['i'], clause=rej[k]['v'], spec=module)))
        if traces and len(self.samples) < 4:
            self.samples.append(traces[self.rng.randrange(n)])
        return [rej[k]['v'] if k in rej else 'ok' for k in range(n)]

    def fail(self, clause, detail):
        """A violation visible without TLC (e.g. the code cannot be imported)."""
        self.violations.append((detail, dict(step=0, clause=clause, spec='driver')))

    def canaries(self, traces, kinds):
        """Corrupted copies of recorded traces. kinds: (which event will do, what is done to it). One which cannot be
        made is an error of the machinery only when nothing is rejected."""
        out = []
        for fits, hurt in kinds:
            for t in traces:
                hit = [i for i, e in enumerate(t['ev']) if e.get('status', 'ok') == 'ok' and fits(e)]
                if hit and all(e.get('status', 'ok') == 'ok' for e in t['ev'][:hit[0]]):
                    c = json.loads(json.dumps(dict(t, ev=t['ev'][:hit[0] + 1])))
                    hurt(c['ev'][-1])
                    out.append(c)
                    break
            else:
                self.lacking += 1
        return out

    # -- verdict ----------------------------------------------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        known = self.known()
        keys = {k for k, _ in known}
        new = [(t, r) for t, r in self.violations if not (isinstance(t, dict) and t.get('_key') in keys)]
        for k, text in known:
            print('KNOWN-FINDING: property=%s key=%s %s' % (self.prop, k, text))
        code = 0
        if self.lacking and not new:
            raise Machinery('%d canaries could not be made' % self.lacking)
        if new:
            os.makedirs(self.outdir, exist_ok=True)
            path = os.path.join(self.outdir, 'replay_%s_%d.json' % (self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump([dict(trace=t, reject=r) for t, r in pick(new)], f, indent=1, default=str)
            clauses = {}
            for t, r in new:
                clauses[r['clause']] = clauses.get(r['clause'], 0) + 1
            print('%d rejected; clauses: %s' % (len(new), json.dumps(clauses)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            code = 1
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   states_per_module=self.models, samples=[trim(s) for s in self.samples] or ['(none)'])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
                  seed=self.seed, level='model_checking', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %s states=%d traces=%d violations=%d %.1fs' % (self.prop, self.tier, self.states, self.traces,
                                                                len(new), time.time() - self.t0))
        return code


def trim(s, n=1500):
    t = json.dumps(s, default=str)
    return s if len(t) <= n else t[:n] + '...'


@contextlib.contextmanager
def scratch():
    """An empty folder.  A process gets the same path again and again, so that what is remembered by
    file name comes out as stale."""
    if _scratch.get('pid') != os.getpid():
        _scratch.update(pid=os.getpid(), path=tempfile.mkdtemp(prefix='vf_run_'), depth=0)
        os.rmdir(_scratch['path'])
    _scratch['depth'] += 1
    d = '%s_%d' % (_scratch['path'], _scratch['depth'])
    os.mkdir(d, 0o700)
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        _scratch['depth'] -= 1


_scratch = {}


def pick(new, n=24):
    """A few rejected traces of every clause."""
    seen, out = {}, []
    for t, r in new:
        seen[r['clause']] = seen.get(r['clause'], 0) + 1
        if seen[r['clause']] <= 3 and len(out) < n:
            out.append((t, r))
    return out


# ------------------------------------------------------------------------------------------------ parallel driving
def _worker(k, fn, items, todo, nxt, path, probe):
    """Takes behaviours off the list until it is empty and appends every result to a file of its own."""
    global _probe
    import pickle
    import resource
    _probe = probe
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    with open(os.path.join(path, '%d.%d' % (k, os.getpid())), 'wb') as f:
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(todo):
                break
            try:
                r = (todo[i], True, fn(items[todo[i]]))
            except (MemoryError, OSError):
                r = (todo[i], None, traceback.format_exc())
            except Exception:
                r = (todo[i], False, traceback.format_exc())
            f.write(pickle.dumps(r))
            f.flush()
    os._exit(0)


def pmap(fn, items, procs=8):
    """Run the driver over many behaviours in forked workers (order kept).  A behaviour that brings its process
    down (a segmentation fault in numpy, say) is run again with every call tried out in a process of its own."""
    import multiprocessing as mp
    import multiprocessing.connection
    import pickle
    items = list(items)
    ctx = mp.get_context('fork')
    res, bad = {}, []

    def rounds(todo, probe):
        nxt = ctx.Value('l', 0)
        path = tempfile.mkdtemp(prefix='vf_map_')
        try:
            ps = []
            new = 0

            def start():
                nonlocal new
                p = ctx.Process(target=_worker, args=(new, fn, items, todo, nxt, path, probe))
                new += 1
                p.start()
                return p
            ps = [start() for _ in range(min(procs, len(todo)))]
            while ps:
                mp.connection.wait([p.sentinel for p in ps])
                for p in [p for p in ps if not p.is_alive()]:
                    ps.remove(p)
                    if p.exitcode != 0 and nxt.value < len(todo):
                        ps.append(start())
            for f in sorted(os.listdir(path)):
                with open(os.path.join(path, f), 'rb') as h:
                    while True:
                        try:
                            i, ok, v = pickle.load(h)
                        except (EOFError, pickle.UnpicklingError):
                            break
                        if ok is None:
                            raise Machinery('driver failed: ' + v)
                        if not ok:
                            bad.append((i, v))
                        res[i] = v
        finally:
            shutil.rmtree(path, ignore_errors=True)
    rounds(list(range(len(items))), False)
    lost = [i for i in range(len(items)) if i not in res]
    if lost:
        rounds(lost, True)
        # what was lost in the second round as well (killed from outside) cannot be judged
        lost = [i for i in lost if i not in res]
        if lost:
            raise Machinery('%d behaviours ended their process' % len(lost))
    if bad:
        i, v = min(bad)
        raise Unobservable('%d of %d histories, the first one %s\n%s' % (len(bad), len(items), json.dumps(items[i], default=str)[:4000], v))
    return [res[i] for i in range(len(items))]
