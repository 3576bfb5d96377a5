"""J01, X01, G01: Sirepo models, Warp files and the elegant to Warp command."""
import contextlib
import copy
import io
import json
import os
import random
import sys
import types

import vf
from dom_beamline import lit

C = 299792458.0
STRS = ['', 'out.sdds', 'LBL1-WAKE.wake', 'a b', '%s.w1', 'Q1']


def stubs():
    """sirepo and warp are not installed: what the code uses of them."""
    if 'sirepo' in sys.modules:
        return
    import copy as cp

    def build(field_map):
        res = {}
        for code in field_map:
            res[code] = dict(from_madx={}, to_madx={})
            for el in field_map[code]:
                res[code]['from_madx'][el[0]] = el[1]
                for f in el[1:]:
                    f = cp.copy(f)
                    n = f[0]
                    if n not in res[code]['to_madx']:
                        f[0] = el[0]
                        res[code]['to_madx'][n] = f
        return res
    m = {n: types.ModuleType(n) for n in ('sirepo', 'sirepo.template', 'sirepo.template.madx_converter', 'sirepo.lib')}
    m['sirepo.template.madx_converter']._build_field_map = build
    m['sirepo.lib'].Importer = Importer
    m['sirepo'].template = m['sirepo.template']
    m['sirepo'].lib = m['sirepo.lib']
    m['sirepo.template'].madx_converter = m['sirepo.template.madx_converter']
    sys.modules.update(m)
    w = types.ModuleType('warp')
    for t in ('Drft', 'Bend', 'Quad', 'Sext', 'Dipo', 'Mult', 'Accl'):
        setattr(w, t, type(t, (Warp,), {}))
    sys.modules['warp'] = w


class Importer:
    data = None

    def __init__(self, code, *a, **k):
        assert code == 'elegant'

    def parse_file(self, path, *a, **k):
        return Importer.data


class Warp:
    def __init__(self, *a, **k):
        assert not a
        self.k = k

    def __add__(self, o):
        return Line([self]) + o

    def __mul__(self, n):
        return Line([self] * n)
    __rmul__ = __mul__


class Line:
    def __init__(self, s):
        self.s = s

    def __add__(self, o):
        return Line(self.s + (o.s if isinstance(o, Line) else [o]))


class Names(dict):
    def __init__(self):
        self.log = []

    def __setitem__(self, k, v):
        self.log.append((k, v))
        dict.__setitem__(self, k, v)


class Case:
    def __init__(self, mo, g, case=True):
        self.mo, self.g = mo, g
        self.names = {}
        self.top = g.choice(['TOP', 'TOP', 'LINE.1', 'LAMBDA', 'IN', 'NONE', '1_A'])
        for e in mo['elems']:
            n = e['name']
            self.names[n] = g.choice([n, n.lower(), n.capitalize()]) if case else n
        # the texts of RPN expressions are arbitrary; their values are given
        self.rpn = {}
        for i in range(len(mo['cache'])):
            self.rpn[i + 1] = g.choice(['ql %d /', 'k%d', '2 %d * pi /', 'b1.k1_%d', '%d 1 - sqrt']) % (i + 2)

    def val(self, v):
        g = self.g
        if v[0] == 'r':
            return self.rpn[v[1]]
        if v[0] == 's':
            return STRS[v[1]]
        x = v[1] / v[2]
        if v[2] == 1 and g.random() < .4:
            x = int(x)
        return str(x) if g.random() < .3 else x

    def plain(self, v):
        return ['n'] + list(self.mo['cache'][v[1] - 1]) if v[0] == 'r' else v

    def tok(self, v):
        if isinstance(v, str):
            try:
                r = vf.rat(float(v), 2000000, 1e-9)
                return ['n', r[0], r[1]] if r[2] else ['x', 0, 0]
            except ValueError:
                return ['s', STRS.index(v), 0] if v in STRS else ['x', 1, 0]
        r = vf.rat(v, 2000000, 1e-9)
        return ['n', r[0], r[1]] if r[2] else ['x', 2, 0]

    def line_name(self, l):
        return self.top if l == 1 else 'SUB_%d' % l

    def json(self):
        g, mo = self.g, self.mo
        n = len(mo['lines']) + len(mo['elems'])
        ids = g.sample(range(1, 5 * n + 1), n)
        eid = ids[:len(mo['elems'])]
        lid = ids[len(mo['elems']):]
        els = []
        for i, e in enumerate(mo['elems']):
            d = dict(_id=eid[i], name=self.names[e['name']], type=e['type'] if g.random() < .8 else e['type'].lower())
            for p in e['pars']:
                d[p['k']] = self.val(p['v'])
            ks = list(d)
            g.shuffle(ks)
            els.append({k: d[k] for k in ks})
        ls = []
        for i, l in enumerate(mo['lines']):
            ls.append(dict(name=self.line_name(i + 1), id=lid[i], length=g.random(), angle=0, count=len(l['items']), items=[
                eid[x['id'] - 1] if x['k'] == 'e' else -lid[x['id'] - 1] if x['rev'] else lid[x['id'] - 1] for x in l['items']]))
        g.shuffle(els)
        g.shuffle(ls)
        cache = {self.rpn[i + 1]: v[0] / v[1] for i, v in enumerate(mo['cache'])}
        return dict(models=dict(beamlines=ls, elements=els, rpnCache=cache, rpnVariables=[], commands=[]))

    def observe(self, bl):
        inv = {v: k for k, v in self.names.items()}
        return [dict(name=inv.get(e.name, str(e.name)), type=str(e.type).upper(),
                     pars=[dict(k=k, v=self.tok(v)) for k, v in e.parameters.items() if not k.startswith('_')])
                for e in bl.get_beamline_elements()]

    def build(self):
        """The same beamline through the interface of the beamline class."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top = StructuredBeamline(self.g.choice([self.top, self.top.lower(), self.top.capitalize()]))

        def fill(bl, l, rev):
            items = self.mo['lines'][l - 1]['items']
            for x in items[::-1] if rev else items:
                if x['k'] == 'e':
                    e = self.mo['elems'][x['id'] - 1]
                    bl.add_element(self.names[e['name']], e['type'], {p['k']: self.val(self.plain(p['v'])) for p in e['pars']})
                else:
                    r = rev != bool(x['rev'])
                    n = '%s%d' % ('r' if r else 'f', x['id'])
                    new = n not in bl.lines
                    bl.add_beamline(n)
                    if new:
                        fill(bl.lines[n], x['id'], r)
        fill(top, 1, False)
        return top

    def warp(self, text, scale=None):
        ns = Names()
        exec(text, dict(), ns)
        inv = {v.upper(): k for k, v in self.names.items()}
        defs, line, ids = [], [], {}
        top = ns.log[-1][1]
        for k, v in ns.log[:-1]:
            if isinstance(v, Warp):
                ids[id(v)] = inv.get(k, k)
                defs.append(dict(name=inv.get(k, k), type=type(v).__name__, pars=[
                    dict(k=p, v=self.tok(float(x) * scale if p == 'db' and scale else x)) for p, x in v.k.items()]))
        line = [ids.get(id(o), '?') for o in (top.s if isinstance(top, Line) else [top])]
        return dict(defs=defs, line=line)


NOTHING = dict(defs=[], line=[])


def run_import(job):
    mo, seed = job
    g = random.Random(seed)
    from rsbeams.rslattice.templates import lattice_importer as li
    c = Case(mo, g)
    ev = []
    js = c.json()
    with vf.scratch() as d:
        p = os.path.join(d, 'sirepo-data.json')
        with open(p, 'w') as f:
            json.dump(js, f)
        from pykern import pkjson
        obj = pkjson.load_any(json.dumps(js))
        # from a file, from an object, and from that object again
        for src in g.choice([[p], [obj, obj], [p, obj], [obj]]):
            st, v = vf.call(lambda: c.observe(li.parse_json(src, c.top)))
            ev.append(dict(op='import', status=st if st == 'ok' else st + '-' + str(v), obs=v if st == 'ok' else []))
    return dict(model=mo, ev=ev, _json=js, _seed=seed)


def event(op, c, p, fn, scale=None):
    before = c.g.choice(['sentinel', 'sentinel\n' * 5000])      # a longer file than the new one
    with open(p, 'w') as f:
        f.write(before)

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            fn()
        return open(p).read()
    st, v = vf.call(go)
    touched = int(not os.path.exists(p) or open(p).read() != before)
    e = dict(op=op, status=st if st == 'ok' else st + '-' + str(v), touched=touched, obs=NOTHING, _text=v if st == 'ok' else '')
    if st == 'ok':
        st, o = vf.call(lambda: c.warp(v, scale))
        e.update(obs=o) if st == 'ok' else e.update(status='not-executable-' + str(o))
    return e


def run_write(job):
    mo, seed = job
    g = random.Random(seed)
    stubs()
    from rsbeams.rslattice import formatted_writer as fw
    c = Case(mo, g)
    ev = []
    with vf.scratch() as d:
        p = os.path.join(d, 'out.py')
        bl = c.build()
        w = fw.WarpWriter(bl, 'elegant')
        for i in range(g.choice([1, 1, 2, 3])):
            if i:
                el = g.randrange(len(mo['elems']))
                e = mo['elems'][el]
                v = ['n', g.randint(1, 40), g.choice([1, 3, 8])]
                v = vf.rat(v[1] / v[2])
                k = g.choice(['l', 'db', 'rc'])

                def edit():
                    for x in bl.get_beamline_elements():
                        if x.name == c.names[e['name']]:
                            x.parameters[k] = v[0] / v[1]
                st, _ = vf.call(edit)
                ev.append(dict(op='edit', e=el + 1, k=k, v=['n', v[0], v[1]], status=st))
                if g.random() < .5:
                    w = fw.WarpWriter(bl, 'elegant')
            ev.append(event('write', c, p, lambda: w.write_file(p)))
    return dict(model=mo, ev=ev, _seed=seed)


PS = [(5, 1), (1, 2), (40, 1), (300, 1), (3, 4), (1, 10)]


def run_command(job):
    mo, seed = job
    g = random.Random(seed)
    stubs()
    from rsbeams.pkcli import lattice
    c = Case(mo, g)
    ps = g.sample(PS, g.choice([1, 1, 2]))
    ev = []
    from pykern import pkjson
    with vf.scratch() as d:
        p = os.path.join(d, 'out.py')
        for n, q in ps:
            js = c.json()
            cmds = [dict(_type='run_setup', p_central_mev=g.choice([n / q, str(n / q)]), lattice='elegant.lte')]
            for t in ('global_settings', 'twiss_output', 'track'):
                if g.random() < .4:
                    cmds.insert(g.randint(0, len(cmds)), dict(_type=t, p_central_mev=77.0))
            js['models']['commands'] = cmds
            Importer.data = pkjson.load_any(json.dumps(js))
            e = event('command', c, p, lambda: lattice.elegant_to_warp(os.path.join(d, 'in.ele'), p, g.choice([c.top, c.top.lower(), c.top.capitalize()])), C / 1e6)
            e['p'] = [n, q]
            ev.append(e)
    return dict(model=mo, ev=ev, _seed=seed)


def N(n, d=1):
    from fractions import Fraction
    f = Fraction(n, d)
    return ['n', f.numerator, f.denominator]


def E(name, type, **k):
    return dict(name=name, type=type, odd=int(not name.isidentifier()), pars=[dict(k=a, v=b) for a, b in k.items()])


CACHE = [(3, 4), (-5, 2), (12, 1)]
TYPES = ['DRIF', 'CSRDRIFT', 'EDRIFT', 'LSCDRIFT', 'CSBEND', 'SBEN', 'CSRCSBEND', 'KSBEND', 'NIBEND', 'RBEN', 'TUBEND', 'QUAD', 'KQUAD', 'SEXT', 'KSEXT',
         'MARK', 'WATCH', 'RFCA', 'SOLE', 'KICKER', 'MULT']


def elements(g, n, keys, mult=None, holes=.08):
    out = []
    for i in range(n):
        t = g.choice(TYPES)
        ks = [k for k in keys if g.random() < .5]
        need = ['l'] + (['k1', 'db'] if 'QUAD' in t else ['k2', 'db'] if 'SEXT' in t else ['angle', 'rc'] if t in ('CSBEND', 'SBEN', 'CSRCSBEND', 'KSBEND', 'NIBEND', 'RBEN', 'TUBEND') else [])
        if t == 'MARK':
            need = []
        ks += [k for k in need if k in keys and k not in ks and g.random() > holes]
        g.shuffle(ks)
        pars = {}
        for k in ks:
            r = g.random()
            pars[k] = ['r', g.randint(1, 3), 0] if r < .2 else ['s', g.randint(0, len(STRS) - 1), 0] if k == 'filename' \
                else N(g.choice([-1, 1]) * g.randint(1, 30), g.choice([1, 2, 4, 5])) if r < .88 or k == 'angle' else N(0)
        out.append(E(name(g, [e['name'] for e in out]), t, **pars))
    return out


def name(g, used):
    """Names that contain, begin or end with one another, some of them no Python names."""
    while True:
        n = g.choice(['A', 'B1_', 'QF', 'XX_', 'Q', 'D']) + g.choice(['', '1', '2', '3'])
        if used and g.random() < .5:
            o = g.choice(used)
            n = g.choice([n + o, o + n, o + '_', o + '1', o.replace('_', '.'), o[1:] or n, o.replace('1', '_')])
        if g.random() < .15:
            n = g.choice(['%s.1', 'L:%s', '%s-2', '1%s', '%s$', '%s.1.2', '%s_1']) % n
        if n.upper() not in [u.upper() for u in used]:
            return n


def model(ck, sets, lines, items, flat, simulate=None, inv=('Prefix', 'Written')):
    el = '{%s}' % ', '.join(lit(s) for s in sets)
    return ck.model('MC_Sirepo', dict(NLines='{%s}' % ', '.join(map(str, lines)), Elems=el, Cache=lit(CACHE), MaxItems=items, MaxFlat=flat,
                                      Ps='{}', Rand='TRUE' if simulate else 'FALSE'),
                    list(inv) + ['Emit'] + ([] if simulate else ['Twice']), simulate=simulate, depth=3 * items + 3 * flat if simulate else None)


def settle(ck, beh, fn, cap, canary):
    seen, uniq = set(), []
    for b in beh:
        k = repr(b)
        if k not in seen:
            seen.add(k)
            uniq.append(b['model'])
    if len(uniq) > cap:
        uniq = uniq[:30] + ck.rng.sample(uniq[30:], cap)
    traces = vf.pmap(fn, [(m, ck.seed * 1000003 + i) for i, m in enumerate(uniq)])
    can = []
    for t in traces:
        if t['ev'][-1]['status'] == 'ok':
            c = copy.deepcopy(t)
            if canary(c['ev'][-1]['obs']):
                can.append(c)
                break
    ck.validate('Trace_Sirepo', traces, can)


def behaviours(ck, keys, holes, small, wide):
    g = ck.rng
    sets = [elements(g, 2, keys, holes=holes) for _ in range(2)]
    beh = model(ck, sets, [1, 2, 3], small, 12)
    sets = [elements(g, g.randint(2, 5), keys, holes=holes) for _ in range(60 if ck.thorough else 25)]
    beh += model(ck, sets, [2, 3, 4, 5], wide, 60, simulate=30000 if ck.thorough else 2500)
    # many elements, long lines
    sets = [elements(g, 90, keys, holes=holes) for _ in range(2)]
    far = model(ck, sets, [1, 2, 4], 260, 400, simulate=100 if ck.thorough else 10, inv=())
    ck.extra['long_models'] = len(far)
    return far + beh


def J01(ck):
    beh = behaviours(ck, ['l', 'k1', 'angle', 'filename', 'e1', 'n', 't', 'order', 'id'], .3, 5 if ck.thorough else 4, 14)

    def can(o):
        if len(o) > 1 and o != o[::-1]:
            o.reverse()
            return True
    settle(ck, beh, run_import, 80000 if ck.thorough else 6000, can)


def canary_write(o):
    for d in o['defs']:
        for p in d['pars']:
            p['v'] = ['n', 7777, 13]
            return True


def X01(ck):
    beh = behaviours(ck, ['l', 'db', 'rc', 'k1', 'angle'], .03, 4, 12)
    settle(ck, beh, run_write, 60000 if ck.thorough else 5000, canary_write)


def G01(ck):
    g = ck.rng
    beh = behaviours(ck, ['l', 'k1', 'k2', 'angle', 'e1'], .03, 4, 8)
    # one element at a time: every type with every strength
    sets = [[e] for _ in range(60 if ck.thorough else 12) for e in elements(g, 20, ['l', 'k1', 'k2', 'angle'], holes=.05)]
    beh += model(ck, sets, [1], 1, 2)
    settle(ck, beh, run_command, 60000 if ck.thorough else 5000, canary_write)
