"""D01-D07: SDDS reader and writer."""
import copy
import os
import random
import struct

import numpy as np

import vf

PROFILES = {
    # parameters (type, fixed), columns
    1: ([('double', 0)], ['double']),
    2: ([('string', 0), ('long', 0)], ['double', 'long']),
    3: ([], ['short', 'double', 'float']),
    4: ([('long', 1), ('double', 0), ('string', 1)], ['long']),
    5: ([('string', 0)], ['string', 'double']),
    6: ([('double', 0), ('long', 0), ('string', 0)], []),
    7: ([('float', 0), ('short', 0), ('double', 1)], ['double', 'string', 'long', 'string']),
    8: ([], ['string']),
    9: ([('string', 0), ('string', 0), ('double', 0)], ['float', 'double']),
    10: ([('double', 1)], ['double', 'double']),
    11: ([('short', 0)], ['short']),
    12: ([('long', 0)], ['string', 'string']),
}


def tla_profile(ps, cs):
    return '[ps |-> <<%s>>, cs |-> <<%s>>]' % (
        ', '.join('[ty |-> "%s", fx |-> %s]' % (t, 'TRUE' if x else 'FALSE') for t, x in ps),
        ', '.join('"%s"' % c for c in cs))


ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+-:\'/$%&*#,;()[]<>=@~'
WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def same(v):
    """What makes two numbers the same: a NaN is itself, a negative zero is not zero."""
    return repr(v) if isinstance(v, float) else v


class Concrete:
    """Injective assignment of concrete values to the data of an abstract file."""

    def __init__(self, f, rng, maxlen=12):
        self.f, self.rng, self.ascii, self.maxlen = f, rng, f['mode'] != 'bin', maxlen
        self.val, self.inv = {}, {}
        for p, n in enumerate(f['rows'], 1):
            for i, pr in enumerate(f['ps'], 1):
                if not pr['fx']:
                    self.make((p, 0, i), pr['ty'], True)
            for r in range(1, n + 1):
                for j, ty in enumerate(f['cs'], 1):
                    self.make((p, r, j), ty, False)

    def make(self, tok, ty, par):
        for _ in range(50):
            v = self.draw(ty, par)
            if (ty, same(v)) not in self.inv:
                break
        self.val[tok] = v
        self.inv.setdefault((ty, same(v)), tok)

    def draw(self, ty, par):
        g = self.rng
        if ty == 'double':
            k = g.random()
            if k < 0.1:
                return g.choice([0.0, 1.0, -1.0, 1.7976931348623157e308, 2.2250738585072014e-308, 1e-300, -1e22, 0.1, 10.0, 1e16,
                                 float('inf'), -float('inf'), float('nan'), -0.0, 5e-324])
            if k < 0.4:
                return float(g.randint(-10, 99))
            return g.choice([-1, 1]) * g.random() * 10.0 ** g.randint(-20, 20)
        if ty == 'float':
            return float(np.float32(g.choice([-1, 1]) * g.random() * 10.0 ** g.randint(-10, 10)))
        if ty == 'long':
            k = g.random()
            return g.randint(0, 12) if k < 0.4 else g.randint(-2 ** 31, 2 ** 31 - 1) if k < 0.9 else g.choice([2 ** 31 - 1, -2 ** 31, 10, 0x0A0A0A0A, 32])
        if ty == 'short':
            return g.randint(0, 9) if g.random() < 0.4 else g.randint(-2 ** 15, 2 ** 15 - 1)
        n = g.randint(1, self.maxlen)
        if not self.ascii and g.random() < 0.1:
            n = 0
        if self.ascii and g.random() < 0.3:
            # has to stand in quotes
            return ''.join(g.choice(ALPHA + '      !!"\\\t') for _ in range(g.randint(0, self.maxlen)))
        s = ''.join(g.choice(ALPHA if self.ascii else ALPHA + '!"|') for _ in range(n))
        if (par or not self.ascii) and n > 3 and g.random() < 0.4:
            k = g.randint(1, n - 2)
            s = s[:k] + ' ' + s[k + 1:]
        return s

    def decode(self, v, tok, ty):
        try:
            if ty == 'string':
                v = v.decode('latin-1') if isinstance(v, bytes) else str(v)
            elif ty in ('long', 'short'):
                if float(v) != int(v):
                    return [0, 0, 0]
                v = int(v)
            else:
                v = float(v)
        except Exception:
            return [0, 0, 0]
        if tok in self.val and same(self.val[tok]) == same(v) and str(self.val[tok]) == str(v):
            return list(tok)
        t = self.inv.get((ty, same(v)))
        return list(t) if t and t != tok else [0, 0, 0]


def fmt(ty, v, rng, par=False):
    if ty == 'double':
        return rng.choice([repr, repr, '{:.18e}'.format, '{:.17G}'.format, '{:+.16e}'.format])(float(v))
    if ty == 'float':
        return '%.9g' % v
    if ty == 'string' and (not set(v) <= set(ALPHA + ' ') or v != v.strip() or not v or ' ' in v and not par or rng.random() < .1):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    return str(v)


WORDS = ['s', 'x', "xp", 'Sx', 'sx', 'ElementName', 'W1:P1.x', 'p-central', 'Q1.K1', '#Particles', '%change', 'a/b', 'm_e', 'name', 'type', 'units', 'file', 'print', 'return',
         'e+x', '$gb$r', '1st', '12', 'mode', 'data', 'end', 'lambda', '@start', 'x_1', '_1', 'f0', 'none', 'nan', 'Step[0]', 'a|b', '(x)', '<Sx>', "x'", 'dtype', 'string', 'long']


def names(f):
    if 'names' in f:
        return f['names']
    return ['par%d' % i for i in range(1, len(f['ps']) + 1)], ["col%d" % j for j in range(1, len(f['cs']) + 1)]


def named(f, rng):
    """Any names SDDS allows for."""
    def some(n):
        return [w + (str(k) if k else '') for k in range(n // len(WORDS) + 1) for w in rng.sample(WORDS, len(WORDS))][:n]
    return dict(f, names=[some(len(f['ps'])), some(len(f['cs']))]) if rng.random() < .4 else f


FIXED = {'double': '1.5', 'long': '7', 'string': '"fix ed"', 'float': '2.5', 'short': '3'}


def header(f, rng):
    pn, cn = names(f)
    L = ['SDDS1']
    if rng.random() < 0.5:
        L.append('!# little-endian')
    if rng.random() < 0.3:
        L.append('&description text="a test", contents="x", &end')
    order = [('p', i) for i in range(len(pn))] + [('c', j) for j in range(len(cn))]
    if rng.random() < 0.3:
        order = order[len(pn):] + order[:len(pn)]
    for k, i in order:
        if rng.random() < 0.15:
            L.append('! a comment &column name=bogus, type=double, &end')
        if rng.random() < 0.1:
            L.append('')
        if k == 'p':
            a = ['name=%s,' % pn[i], 'type=%s,' % f['ps'][i]['ty']]
            if f['ps'][i]['fx']:
                a.append('fixed_value=%s,' % FIXED[f['ps'][i]['ty']])
            kind = '&parameter'
        else:
            a = ['name=%s,' % cn[i], 'type=%s,' % f['cs'][i]]
            if f['cs'][i] == 'string' and rng.random() < 0.25:
                # a bound on the characters of a field in ASCII data, without meaning in binary data
                a.append('field_length=%d,' % (rng.choice([-1, 1]) * (rng.randint(1, 12) if f['mode'] == 'bin' else rng.randint(100, 120))))
            kind = '&column'
        if rng.random() < 0.4:
            a.append('units=m,')
        if rng.random() < 0.3:
            a.append('description="some, text of %d",' % i)
        rng.shuffle(a)
        style = rng.random()
        if style < 0.7:
            L.append(' '.join([kind] + a + ['&end']))
        else:
            L.append(kind + ' ' + a[0])
            for x in a[1:]:
                if rng.random() < 0.2:
                    L.append('! inner comment')
                L.append('   ' + x)
            L.append('&end')
    mode = 'binary' if f['mode'] == 'bin' else 'ascii'
    a = ['mode=%s,' % mode]
    if f['mode'] == 'blank':
        a.append('no_row_counts=1,')
    elif f['mode'] == 'count' and rng.random() < 0.2:
        a.append('no_row_counts=0,')
    if rng.random() < 0.2:
        a.append('lines_per_row=1,')
    rng.shuffle(a)
    L.append(' '.join(['&data'] + a + ['&end']))
    return ('\n'.join(L) + '\n').encode()


PACK = {'double': '<d', 'float': '<f', 'long': '<i', 'short': '<h'}


def encode(f, con, rng):
    out = [header(f, rng)]
    pn, cn = names(f)
    if f['mode'] == 'bin':
        def one(ty, v):
            if ty == 'string':
                b = v.encode('latin-1')
                return struct.pack('<i', len(b)) + b
            return struct.pack(PACK[ty], v)
        for p, n in enumerate(f['rows'], 1):
            out.append(struct.pack('<i', n))
            for i, pr in enumerate(f['ps'], 1):
                if not pr['fx']:
                    out.append(one(pr['ty'], con.val[p, 0, i]))
            for r in range(1, n + 1):
                for j, ty in enumerate(f['cs'], 1):
                    out.append(one(ty, con.val[p, r, j]))
        return b''.join(out)
    L = []

    def rec(line, plain=False):
        if f['trail'] == 'rowc' and rng.random() < 0.5:
            L.append(rng.choice(['! comment 1 2 3', '  ! indented comment', '!']))
        if not plain and f['trail'] != 'none' and rng.random() < 0.2:
            line += rng.choice(['   ! the rest is a comment', ' !', '\t! 1 2 3'])
        L.append(line)
    for p, n in enumerate(f['rows'], 1):
        for i, pr in enumerate(f['ps'], 1):
            if not pr['fx']:
                t = fmt(pr['ty'], con.val[p, 0, i], rng, True)
                rec(t, pr['ty'] == 'string' and not t.startswith('"'))
        if f['cs']:
            if f['mode'] == 'count':
                rec(str(n))
            for r in range(1, n + 1):
                sep = rng.choice([' ', '  ', ' ', '\t'])
                line = sep.join(fmt(ty, con.val[p, r, j], rng) for j, ty in enumerate(f['cs'], 1))
                rec(rng.choice(['', ' ']) + line + rng.choice(['', ' ', '']))
            if f['mode'] == 'blank' and not (p == len(f['rows']) and f['trail'] == 'none' and rng.random() < 0.5):
                L.append(rng.choice(['', '', '  ']))
    text = '\n'.join(L)
    if f['trail'] != 'none' or rng.random() < 0.8:
        text += '\n'
    if f['trail'] == 'blank':
        text += rng.choice(['\n', '\n\n', '  \n'])
    out.append(text.encode('latin-1'))
    return b''.join(out)


def pages_of(data):
    if data is None:
        return []
    data = np.asarray(data) if not isinstance(data, np.ndarray) else data
    if data.ndim == 0:
        return [np.atleast_1d(data)]
    return [np.atleast_1d(np.asarray(x) if data.dtype == object else np.array(x, dtype=data.dtype)).reshape(-1) for x in data]


def observe(rd, f, con):
    pn, cn = names(f)
    free = [i for i, pr in enumerate(f['ps'], 1) if not pr['fx']]
    par, col = [], []
    if free:
        for k, pg in enumerate(pages_of(rd.parameters), 1):
            row = []
            for i in free:
                v = pg[pn[i - 1]]
                row.append(con.decode(v[0], (con.sel[k - 1] if k <= len(con.sel) else 0, 0, i), f['ps'][i - 1]['ty'])
                           if len(v) == 1 else [-1, len(v), i])
            par.append(row)
    if f['cs']:
        ne = [p for p in con.sel if f['rows'][p - 1] > 0]
        for k, pg in enumerate(pages_of(rd.columns), 1):
            pp = ne[k - 1] if k <= len(ne) else 0
            cols = [pg[c] for c in cn]
            col.append([[con.decode(cols[j - 1][r - 1], (pp, r, j), f['cs'][j - 1]) for j in range(1, len(cn) + 1)]
                        for r in range(1, len(pg) + 1)])
    return par, col


def head_of(rd, f):
    pn, cn = names(f)
    h = []
    for n in pn:
        h += [rd.parameter_symbol(n), rd.parameter_units(n), rd.parameter_description(n), rd.parameter_format_string(n),
              rd.parameter_type(n), rd.parameter_fixed_value(n)]
    for n in cn:
        h += [rd.column_symbol(n), rd.column_units(n), rd.column_description(n), rd.column_format_string(n), rd.column_type(n)]
    return repr(h)


def read_once(path, f, con, sel, opt):
    """One read in a fresh reader; sel = sorted list of 0-based pages ([] = all)."""
    from rsbeams.rsdata.SDDS import readSDDS
    con.sel = [p for p in range(1, len(f['rows']) + 1) if not sel or (p - 1) in sel]

    def go():
        rd = readSDDS(path, **opt['kw'])
        try:
            if sel or opt.get('explicit'):
                arg = opt.get('form', list)(sel)
                rd.read(pages=arg)
            else:
                rd.read()
            par, col = observe(rd, f, con)
            return par, col, head_of(rd, f)
        finally:
            if hasattr(getattr(rd, 'openf', None), 'close'):
                rd.openf.close()
    st, v = vf.call(go, seconds=20)
    if st != 'ok':
        return dict(sel=sel, par=[], col=[], head='', status=st + v, how=opt['name'])
    if f.get('runs'):
        v = (v[0], [runs(p) for p in v[1]], v[2])
    return dict(sel=sel, par=v[0], col=v[1], head=v[2], status='ok', how=opt['name'])


OPTS = [dict(name='buffered', kw=dict(buffer=True)),
        dict(name='unbuffered', kw=dict(buffer=False)),
        dict(name='buffered-verbose', kw=dict(buffer=True, verbose=True)),
        dict(name='unbuffered-long', kw=dict(buffer=False, max_string_length=257)),
        dict(name='buffered-long', kw=dict(buffer=True, max_string_length=181))]


def run_file(job):
    f, sels, seed, optnames, maxlen = job
    rng = random.Random(seed)
    f = named(f, rng)
    con = Concrete(f, rng, maxlen)
    data = encode(f, con, rng)
    ev = []
    with vf.scratch() as d:
        path = os.path.join(d, 'f.sdds')
        with open(path, 'wb') as o:
            o.write(data)
        for k, sel in enumerate(sels):
            for opt in OPTS:
                if opt['name'] not in optnames:
                    continue
                o = dict(opt)
                if sel:
                    o['form'] = [list, tuple, lambda x: np.array(x), lambda x: list(reversed(x))][(k + seed) % 4]
                ev.append(read_once(path, f, con, sorted(sel), o))
    return dict(f=f, eq=1 if len(optnames) > 2 else 0, ev=ev, _data=data.decode('latin-1'))


def big_file(rng, thorough):
    mode = rng.choice(['bin', 'count', 'blank'])
    tys = ['double', 'long', 'string', 'double', 'short', 'float']
    ps = [dict(ty=rng.choice(tys), fx=rng.random() < 0.2) for _ in range(rng.randint(0, 5))]
    cs = [rng.choice(tys) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.4:
        cs = [c if c != 'string' else 'double' for c in cs]
        if rng.random() < 0.5:
            ps = [p if p['ty'] != 'string' else dict(p, ty='long') for p in ps]
    npg = rng.randint(1, 14)
    big = rng.random() < (0.25 if thorough else 0.07)
    hi = 40 if thorough else 12
    if big and 'string' not in cs:
        npg, hi = rng.randint(1, 3), 3000
    rows = [rng.randint(1 if mode == 'blank' else 0, hi) for _ in range(npg)]
    if rng.random() < 0.3:
        rows = [rows[0]] * npg
    if big and rng.random() < 0.5:
        rows[0] = 2560 if hi > 100 else 10
    trail = 'none' if mode == 'bin' else rng.choice(['none', 'rowc', 'blank'])
    return dict(mode=mode, ps=ps, cs=cs, rows=rows, trail=trail)


HUGE = ['rows', 'lines', 'strings', 'pages', 'even', 'fields']


def huge_file(rng, kind):
    """More rows, pages or fields than 16 bits or typical chunks hold."""
    num = ['double', 'long', 'short', 'float']
    if kind == 'rows':
        f = dict(mode='bin', ps=[dict(ty='long', fx=False)], cs=[rng.choice(num), 'double'], rows=[rng.randint(65537, 70000), rng.randint(1, 9)])
    elif kind == 'lines':
        f = dict(mode=rng.choice(['count', 'blank']), ps=[dict(ty='long', fx=False)], cs=['double', 'long'], rows=[rng.randint(1, 9), rng.randint(10001, 12000)])
    elif kind == 'strings':
        f = dict(mode='bin', ps=[dict(ty='string', fx=False)], cs=['string', 'short'], rows=[rng.randint(4097, 5000)])
    elif kind == 'pages':
        f = dict(mode=rng.choice(['bin', 'count', 'blank']), ps=[dict(ty='double', fx=False)], cs=['long'], rows=[rng.randint(1, 2) for _ in range(rng.randint(257, 300))])
    elif kind == 'even':        # pages alike until late in the file
        n = rng.randint(1, 3)
        rows = [n] * rng.randint(101, 140) + [n + 1] + [n] * rng.randint(0, 3)
        f = dict(mode=rng.choice(['bin', 'count', 'blank']), ps=[dict(ty='long', fx=False)], cs=['double', rng.choice(['long', 'string'])], rows=rows)
    else:
        f = dict(mode=rng.choice(['bin', 'count', 'blank']), ps=[dict(ty=rng.choice(num), fx=rng.random() < .2) for _ in range(rng.randint(65, 130))],
                 cs=[rng.choice(num + ['string']) for _ in range(rng.randint(65, 130))], rows=[3, 2])
    return dict(f, trail='none', runs=int(max(f['rows']) > 3000))


def runs(page):
    """The rows of a page as runs of complete consecutive rows [page, first, last] (anything else as it is)."""
    out = []
    for row in page:
        p, r = row[0][0], row[0][1]
        if p > 0 and r > 0 and all(t == [p, r, j] for j, t in enumerate(row, 1)):
            if out and len(out[-1]) == 3 and isinstance(out[-1][0], int) and out[-1][0] == p and out[-1][2] == r - 1:
                out[-1][2] = r
            else:
                out.append([p, r, r])
        elif len(out) < 20:
            out.append([0, 0, 0])
    return out[:50]


def sdds_files(ck, profiles, modes, sels, maxpages=3, maxrows=2, trails=('none', 'rowc', 'blank')):
    return ck.model('MC_Sdds', dict(
        Modes='{%s}' % ','.join('"%s"' % m for m in modes),
        Profiles='{%s}' % ', '.join(tla_profile(*PROFILES[p]) for p in profiles),
        MaxPages=maxpages, MaxRows=maxrows, Sels='{%s}' % ','.join(sels),
        Trails='{%s}' % ','.join('"%s"' % t for t in trails)),
        ['Exact', 'Partial', 'Restriction', 'InSync', 'Emit'])


def group(beh):
    """(file, selections) from the emitted (file, selection) pairs"""
    import json
    g = {}
    for b in beh:
        g.setdefault(json.dumps(b['f'], sort_keys=True), []).append(sorted(b['sel']))
    return [(json.loads(k), sorted(v)) for k, v in sorted(g.items())]


def strip_page(ev):
    ev['par'] = ev['par'][1:]
    ev['col'] = ev['col'][1:]


def canary_of(traces, hurt):
    for t in traces:
        if t['ev'] and t['ev'][-1]['status'] == 'ok' and (t['ev'][-1]['par'] or t['ev'][-1]['col']):
            c = copy.deepcopy(t)
            hurt(c['ev'][-1])
            return [c]
    return []


def D01(ck):
    import rsbeams.rsdata.SDDS  # noqa: F401
    # value positions cannot matter to the model, so profiles and page shapes are enumerated and values are drawn
    beh = sdds_files(ck, PROFILES if ck.thorough else range(1, 13), ['bin', 'count', 'blank'], ['{}'],
                     maxrows=3 if ck.thorough else 2)
    jobs = []
    for i, (f, sels) in enumerate(group(beh)):
        if not ck.thorough and len(f['rows']) == 3 and f['mode'] != 'bin' and (i + ck.seed) % 3:
            continue
        jobs.append((f, [[]], ck.seed * 100003 + i, ('buffered', 'unbuffered'), [12, 12, 40, 99][i % 4]))
    for i in range(1500 if ck.thorough else 100):
        jobs.append((big_file(ck.rng, ck.thorough), [[]], ck.seed * 7 + i, ('buffered', 'unbuffered'), 30))
    for i in range(4 if ck.thorough else 1):
        jobs = [(huge_file(ck.rng, k), [[]], ck.seed * 13 + i, ('buffered', 'unbuffered'), 30) for k in HUGE] + jobs
    traces = vf.pmap(run_file, jobs)
    ck.validate('Trace_Sdds', traces, canary_of(traces, strip_page))


SELS = ['{}', '{0}', '{1}', '{2}', '{0,1}', '{0,2}', '{1,2}', '{0,1,2}', '{1,5}', '{7}']


def random_sels(rng, f, n):
    k = len(f['rows'])
    out = []
    for _ in range(n):
        s = sorted(rng.sample(range(k + 2), rng.randint(1, min(k + 2, 5))))
        if s not in out:
            out.append(s)
    return out


def D02(ck):
    profs = PROFILES if ck.thorough else [1, 2, 3, 5, 6, 7]
    beh = sdds_files(ck, profs, ['bin', 'count', 'blank'], SELS, trails=('none', 'rowc'))
    jobs = []
    for i, (f, sels) in enumerate(group(beh)):
        sels = [s for s in sels if s]
        if not ck.thorough:
            if len(f['rows']) == 3 and f['mode'] != 'bin' and (i + ck.seed) % 3:
                continue
            if len(f['rows']) < 3:
                sels = [s for s in sels if s[0] < len(f['rows'])][:3] + [s for s in sels if s[0] >= len(f['rows'])][:1]
            else:
                sels = [s for k, s in enumerate(sels) if s in ([1], [2], [0, 2]) or (k + i) % 4 == 0]
        jobs.append((f, sels, ck.seed * 100003 + i, ('buffered', 'unbuffered'), 12))
    for i in range(1000 if ck.thorough else 60):
        f = big_file(ck.rng, ck.thorough)
        jobs.append((f, random_sels(ck.rng, f, 4), ck.seed * 7 + i, ('buffered', 'unbuffered'), 30))
    for k in HUGE:
        f = huge_file(ck.rng, k)
        sels = [[len(f['rows']) - 1]] + random_sels(ck.rng, f, 2)
        if k == 'pages':
            # long selections: every other page, all but one, all of them, the last two hundred
            n = len(f['rows'])
            sels += [list(range(1, n, 2)), [p for p in range(n) if p != n // 3], list(range(n)), list(range(n - 200, n + 5)), sorted(ck.rng.sample(range(n), 150))]
        jobs.insert(0, (f, sels, ck.seed * 13, ('buffered', 'unbuffered'), 30))
    traces = vf.pmap(run_file, jobs)
    ck.validate('Trace_Sdds', traces, canary_of(traces, strip_page))


def D03(ck):
    beh = sdds_files(ck, PROFILES, ['bin', 'count', 'blank'], ['{}', '{1}', '{0,2}'], trails=('none', 'rowc', 'blank'))
    jobs = []
    allopt = tuple(o['name'] for o in OPTS)
    for i, (f, sels) in enumerate(group(beh)):
        if not ck.thorough and (i + ck.seed) % (7 if len(f['rows']) == 3 else 2):
            continue
        jobs.append((f, sels if ck.thorough else [sels[i % len(sels)]], ck.seed * 100003 + i, allopt, [12, 60][i % 2]))
    for i in range(700 if ck.thorough else 40):
        f = big_file(ck.rng, ck.thorough)
        jobs.append((f, [[]] + random_sels(ck.rng, f, 1), ck.seed * 7 + i, allopt, 30))
    for k in HUGE:
        f = huge_file(ck.rng, k)
        jobs.insert(0, (f, [[]] + random_sels(ck.rng, f, 1), ck.seed * 13, allopt, 30))
    traces = vf.pmap(run_file, jobs)

    def hurt(e):
        e['head'] += ' '
    ck.validate('Trace_Sdds', traces, canary_of(traces, hurt))


# ------------------------------------------------------------------------------------------------------ header
NASTY = ['m', 'm/s', '$gb$r$bx$n', 'a, b', 'type=long name=q', "x' (rad)", 'units=m, symbol=s', '100%', '%10.3e', 'data &', '(m*c)$a2$n',
         ' padded ', '', 'two  blanks', 'C:\\dir\\x', 'say "hi"', 'name=', 'fixed_value=3', 'a=b=c', '! not a comment', "it's", 'description', '#1']


def quoted(v):
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


def concrete_header(lines, rng, seed):
    """Text of an abstract header and the value behind each token."""
    val, out = {}, []
    nl = '\n'
    for d, l in enumerate(lines, 1):
        if out and rng.random() < 0.15:
            out.append(rng.choice(['! comment', '!# little-endian', '! &column name=zz, type=double, &end', '']))
        k = l['k']
        if k == 'version':
            out.append('SDDS1' if l['ok'] else rng.choice(['SDDS', 'SDDS2', 'SDS1', 'sdds', 'BPM data', 'S DDS1', 'SDDS5', '# SDDS 1', 'PK\x03\x04']))
        elif k == 'data':
            out.append(rng.choice(['&data mode=ascii, &end', '&data mode=ascii, no_row_counts=1, &end', '&data mode=binary, &end']))
        elif k == 'skip':
            out.append(rng.choice(['&description text="all about, it", contents="type=long", &end',
                                   '&description text=x, &end', '&associate filename="a.b", sdds=1, &end',
                                   '&description text="name=par1, units=zz",\n contents=foo, &end']))
        elif k == 'junk':
            out.append(rng.choice(['junk', '1.0 2.0', '&nonsense name=a, type=double, &end', 'name=x, type=double', '%column name=x, type=double, &end', '=', '0']))
        elif k == 'cut':
            out.append(rng.choice(['&column name=xx, type=double,', '&parameter name=yy,', '&column', '&data mode=ascii,']))
        else:
            toks = ['name=%s%d,' % (l['kind'][:3], d)]
            if rng.random() < 0.3:
                toks[0] = 'name="%s%d",' % (l['kind'][:3], d)
            rest = []
            for a in l['attrs']:
                if a == 'type':
                    v = l['ty']
                    rest.append(rng.choice(['type=%s,', 'type=%s,', 'type="%s",']) % v)
                elif a == 'fixed_value':
                    if l['ty'] == 'string':
                        v = rng.choice(NASTY + ['7', 'fix it']) + rng.choice([str(d), str(d), ' ', ',', ' &', '; '])
                        rest.append('fixed_value=%s,' % quoted(v))
                    elif l['ty'] in ('long', 'short'):
                        v = rng.choice([0, -1, 12, 32767, -300])
                        rest.append('fixed_value=%d,' % v)
                    else:
                        v = rng.choice([0.0, 1.5, -2.5e-9, 1e22, 3.0, 0.1])
                        rest.append('fixed_value=%s,' % (repr(v) if rng.random() < 0.8 else '"%r"' % v))
                else:
                    v = '%s%d%s' % (rng.choice(NASTY), d, a[0]) + rng.choice(['', '', '', '', ' ', ',', ', ', ',,', '&', ' &', '.'])
                    if not set(v).isdisjoint(' ,"\\&') or rng.random() < 0.5:
                        rest.append('%s=%s,' % (a, quoted(v)))
                    else:
                        rest.append('%s=%s,' % (a, v))
                val[d, a] = v
            pos = rng.randint(0, len(rest))
            toks = rest[:pos] + toks + rest[pos:]
            style = rng.randint(0, 3)
            if rng.random() < 0.15:
                toks = [t.replace('=', rng.choice([' = ', '= ', ' =', '\t=  ']), 1) for t in toks]
            if style <= 1:
                # attributes need a comma between them, but no blank
                out.append('&' + l['kind'] + ' ' + rng.choice([' ', ' ', '', '\t', '  ']).join(toks + ['&end']))
            elif style == 2:
                out.append('&' + l['kind'] + ' ' + toks[0])
                for t in toks[1:]:
                    if rng.random() < 0.3:
                        out.append(rng.choice(['! inside', '!']))
                    out.append('  ' + t)
                out.append(rng.choice(['&end', '  &end']))
            else:
                k = rng.randint(0, len(toks))
                out.append('&' + l['kind'] + ' ' + ' '.join(toks[:k]))
                out.append(rng.choice(['', ' ', '    ']) + ' '.join(toks[k:] + ['&end']))
    text = nl.join(out)
    if lines and lines[-1]['k'] == 'data' or rng.random() < 0.7:
        text += nl
    return text, val


QUERY = {'symbol': '_symbol', 'units': '_units', 'description': '_description', 'format_string': '_format_string',
         'type': '_type', 'fixed_value': '_fixed_value'}


def run_header(job):
    from rsbeams.rsdata.SDDS import readSDDS
    lines, seed = job
    rng = random.Random(seed)
    text, val = concrete_header(lines, rng, seed)
    buf = bool(rng.getrandbits(1))
    ev = []
    with vf.scratch() as d:
        p = os.path.join(d, 'h.sdds')
        with open(p, 'wb') as f:
            f.write(text.encode('latin-1'))
        st, rd = vf.call(readSDDS, p, buffer=buf, seconds=5)
        ev.append(dict(op='open', status=st))
        if st == 'ok':
            for d_, l in enumerate(lines, 1):
                if l['k'] != 'def':
                    continue
                kind = l['kind']
                for key, suf in QUERY.items():
                    if kind == 'column' and key == 'fixed_value':
                        continue
                    s2, v = vf.call(getattr(rd, kind + suf, None), '%s%d' % (kind[:3], d_))
                    if s2 != 'ok':
                        tok = [-1, s2]
                    else:
                        tok = [-1, 'other']
                        w = val.get((d_, key))
                        if w is not None and type(v) is type(w) and v == w:
                            tok = [d_, key]
                        elif v is None:
                            tok = [0, 'none']
                        elif isinstance(v, str) and v == '':
                            tok = [0, 'empty']
                    ev.append(dict(op='query', d=d_, key=key, v1=tok[0], v2=tok[1]))
            if hasattr(getattr(rd, 'openf', None), 'close'):
                rd.openf.close()
    return dict(lines=lines, ev=ev, _text=text)


PA = ['symbol', 'units', 'description', 'format_string', 'fixed_value']
CA = ['symbol', 'units', 'description', 'format_string']


def attr_seqs(keys, rng, full, n):
    import itertools
    out = []
    for k in range(len(keys) + 1):
        for sub in itertools.combinations(keys, k):
            s = list(sub) + ['type']
            if full:
                out.append(s)
                out.append(s[::-1])
                if len(s) > 2:
                    out.append(s[1:] + s[:1])
            else:
                rng.shuffle(s)
                out.append(s)
    if n:
        out = rng.sample(out, min(n, len(out)))
    return '{%s}' % ','.join(sorted({'<<%s>>' % ','.join('"%s"' % a for a in s) for s in out}))


def header_model(ck, maxdefs, par, col, types, bad, faults):
    return ck.model('MC_SddsHeader', dict(
        MaxDefs=maxdefs, AttrSeqs='[parameter |-> %s, column |-> %s]' % (par, col),
        Types='{%s}' % ','.join('"%s"' % t for t in types), BadTypes='{%s}' % ','.join('"%s"' % t for t in bad),
        Faults='{%s}' % ','.join('"%s"' % t for t in faults)), ['Same', 'Sound', 'OrderFree', 'Emit'])


def D04(ck):
    ts = ['double', 'float', 'long', 'short', 'string']
    beh = header_model(ck, 1, attr_seqs(PA, ck.rng, True, 0), attr_seqs(CA, ck.rng, True, 0), ts, [], [])
    n = 6 if ck.thorough else 4
    beh += header_model(ck, 2, attr_seqs(PA, ck.rng, False, n), attr_seqs(CA, ck.rng, False, n), ['double', 'string'], [], ['skip'])
    if ck.thorough:
        beh += header_model(ck, 3, attr_seqs(PA, ck.rng, False, 4), attr_seqs(CA, ck.rng, False, 3), ['long', 'string'], [], [])
    jobs = []
    for k in range(3 if ck.thorough else 2):
        jobs += [(b['lines'], ck.seed * 1000003 + i * 10 + k) for i, b in enumerate(beh)]
    for i in range(4000 if ck.thorough else 400):
        lines = [dict(k='version', ok=1, kind='', ty='', attrs=[])]
        for _ in range(ck.rng.randint(2, 14)):
            kind = ck.rng.choice(['parameter', 'column'])
            a = [x for x in (PA if kind == 'parameter' else CA) if ck.rng.random() < 0.5] + ['type']
            ck.rng.shuffle(a)
            lines.append(dict(k='def', ok=0, kind=kind, ty=ck.rng.choice(ts), attrs=a))
            if ck.rng.random() < 0.1:
                lines.append(dict(k='skip', ok=0, kind='', ty='', attrs=[]))
        lines.append(dict(k='data', ok=0, kind='', ty='', attrs=[]))
        jobs.append((lines, ck.seed * 17 + i))
    traces = vf.pmap(run_header, jobs)
    can = copy.deepcopy([t for t in traces if len(t['ev']) > 3][:1])
    for t in can:
        t['ev'][2].update(v1=0, v2='other')
    ck.validate('Trace_SddsHeader', traces, can)


def D07(ck):
    bad = ['', 'doubles', 'int', 'character8', 'real', 'Double', 'float64', 'ulong', 'boolean']
    faults = ['version', 'type', 'junk', 'cut', 'truncate', 'skip']
    ps = '{<<"type">>, <<"units","type">>}'
    beh = header_model(ck, 2, ps, '{<<"type">>}', ['double', 'string'], bad, faults)
    if ck.thorough:
        beh += header_model(ck, 3, ps, ps, ['double', 'long'], bad[:4], faults)
    jobs = []
    for i, b in enumerate(beh):
        faulty = not b['lines'] or b['lines'][-1]['k'] != 'data' or any(l['k'] in ('junk', 'cut') or (l['k'] == 'version' and not l['ok'])
                                                         or (l['k'] == 'def' and l['ty'] in bad) for l in b['lines'])
        if not ck.thorough and (i + ck.seed) % (2 if faulty else 8):
            continue
        jobs.append((b['lines'], ck.seed * 1000003 + i))
    traces = vf.pmap(run_header, jobs)
    can = copy.deepcopy([t for t in traces if t['ev'][0]['status'] == 'err'][:1])
    for t in can:
        t['ev'][0]['status'] = 'ok'
    ck.extra['rejected_files'] = sum(t['ev'][0]['status'] == 'err' for t in traces)
    ck.validate('Trace_SddsHeader', traces, can)


# ------------------------------------------------------------------------------------------------------ writer
META = ['m', 'm$be$nc', 'a, b', "p' q", 'type=long', 'no unit (x)', '100%', 'a long description, with commas, ' * 3, 'm' * 90, 'word ' * 120 + '.']


class WriterRun:
    """One writer object, its targets, and the tokens behind every value given to it."""

    def __init__(self, d, pre, rng):
        from rsbeams.rsdata.SDDS import writeSDDS
        self.d, self.rng = d, rng
        self.w = writeSDDS()
        self.paths = {t: os.path.join(d, t + '.sdds') for t in ('t1', 't2')}
        self.bytes = {}
        for t in self.paths:
            self.bytes[t] = {}
            if pre[t]:
                b = ('previous content %s\n' % t).encode() * 400
                with open(self.paths[t], 'wb') as f:
                    f.write(b)
                self.bytes[t][-1] = b
        self.n = 0
        self.pv, self.cv = [], []
        self.pn, self.cn = [], []
        self.words = [rng.sample(WORDS, len(WORDS)) for _ in range(2)] if rng.random() < .4 else None

    def name(self, k, n):
        if self.words is None:
            return ('par%d', 'col%d')[k] % n
        w = self.words[k]
        return w[n % len(w)] + (str(n // len(w)) if n >= len(w) else '')

    def value(self, ty):
        g = self.rng
        if ty == 'double':
            return g.choice([0.0, 1.0, -1.5, 0.1, 1e-300, 1.7e308, g.random(), -g.random() * 10.0 ** g.randint(-30, 30), float(g.randint(-99, 99)),
                             float('inf'), -float('inf'), float('nan'), -0.0, 5e-324])
        if ty == 'long':
            return g.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, g.randint(-10 ** 9, 10 ** 9), g.randint(-9, 9)])
        if ty == 'short':
            return g.choice([0, 7, 2 ** 15 - 1, -2 ** 15, g.randint(-30000, 30000)])
        return g.choice(['abc', 'two words', "x'", 'A-1.5']) + str(g.randint(0, 999))

    def meta(self, me, i):
        if not me:
            return {'Units': '', 'Symbol': '', 'Description': '', 'FormatStr': ''}
        return {k: self.rng.choice(META) + str(i) for k in ('Units', 'Symbol', 'Description', 'FormatStr')}

    def par(self, p):
        i = len(self.pv) + 1
        m = self.meta(p['me'], i)
        n = self.name(0, i)
        self.pn.append(n)
        v = self.value(p['ty'])
        if p['fx'] and self.rng.random() < 0.4 and p['ty'] != 'string':
            v = type(v)(0)
        self.pv.append((p, v, m))
        kw = {'par' + k: x for k, x in m.items() if x or self.rng.random() < 0.5}
        if p['fx']:
            return vf.call(self.w.create_parameter, n, None, p['ty'], parFixedVal=v, **kw)
        if p['ty'] != 'string' and self.rng.random() < 0.4:
            v = {'double': np.float64, 'long': self.rng.choice([np.int32, np.int64]), 'short': np.int16}[p['ty']](v)
        return vf.call(self.w.create_parameter, n, v, p['ty'], **kw)

    def col(self, c):
        j = len(self.cv) + 1
        m = self.meta(c['me'], j)
        vals = [self.value(c['ty']) for _ in range(c['n'])]
        if c['ty'] == 'string':     # without blanks; the longest is seldom the first
            thr = self.rng.choice([0, c['n'] // 2, c['n'] - 5])
            vals = [v.replace(' ', '_') + 'z' * self.rng.choice([0, 0, 0, 3, 14]) * (k >= thr) for k, v in enumerate(vals)]
        dt = {'string': [str, object], 'double': [np.float64], 'long': [np.int32, np.int64], 'short': [np.int16, np.int64]}[c['ty']]
        arr = np.array(vals, dtype=self.rng.choice(dt))
        if c['ty'] != 'string' and self.rng.random() < 0.1:
            arr = arr.astype(arr.dtype.newbyteorder('>'))
        if self.rng.random() < 0.3 and len(vals):
            # a strided view, as from a 2-D array of coordinates
            big = np.zeros((len(vals), 3), dtype=arr.dtype)
            big[:, 1] = arr
            arr = big[:, 1]
        self.cv.append((c, vals, m, arr, arr.copy()))
        kw = {'col' + k: x for k, x in m.items() if x}
        self.cn.append(self.name(1, j))
        return vf.call(self.w.create_column, self.cn[-1], arr, c['ty'], **kw)

    def save(self, t, mode):
        st, v = vf.call(self.w.save_sdds, self.paths[t], mode)
        return st

    def versions(self, saved_t, saved_k):
        """Content version of every target; content that is new for the target just saved becomes version k."""
        out = {}
        for t, p in self.paths.items():
            if not os.path.exists(p):
                out[t] = 0
                continue
            b = open(p, 'rb').read()
            # identical snapshots have identical bytes: the expected one (the latest) is looked up first
            hit = [k for k, x in self.bytes[t].items() if x == b]
            if t == saved_t and saved_k is not None:
                self.bytes[t][saved_k] = b
                out[t] = saved_k
            else:
                out[t] = max(hit) if hit else -2
        extra = len([x for x in os.listdir(self.d) if os.path.join(self.d, x) not in self.paths.values()])
        return out, extra

    def read(self, t, buffer):
        from rsbeams.rsdata.SDDS import readSDDS

        def go():
            rd = readSDDS(self.paths[t], buffer=buffer)
            try:
                rd.read()
                head, par, col = [], [], []
                pnames = self.present(rd, 'parameter', self.pn)
                cnames = self.present(rd, 'column', self.cn)
                nc = len(cnames)
                for k, names_, vals, given in (('par', pnames, self.pv, self.pn), ('col', cnames, self.cv, self.cn)):
                    acc = 'parameter' if k == 'par' else 'column'
                    for n in names_:
                        i = given.index(n) + 1 if n in given else 0
                        if not i:
                            head.append([k, 0, n, 0, 0])
                            continue
                        m = vals[i - 1][2]
                        got = {x: getattr(rd, acc + '_' + {'FormatStr': 'format_string'}.get(x, x.lower()))(n) for x in m}
                        me = vals[i - 1][0]['me'] if got == m else 2
                        fx = 0
                        if k == 'par':
                            f = rd.parameter_fixed_value(n)
                            if f is not None:
                                want = vals[i - 1][1]
                                fx = 1 if type(f) is type(want) and same(f) == same(want) else 2
                        head.append([k, i, getattr(rd, acc + '_type')(n), me, fx])
                npages = 0
                free = [i for i, (p, _, _) in enumerate(self.pv, 1) if not p['fx'] and self.pn[i - 1] in pnames]
                if free:
                    pg = pages_of(rd.parameters)
                    npages = len(pg)
                    for i in free:
                        v = pg[0][self.pn[i - 1]]
                        par.append(self.tok(v[0], 0, i, self.pv[i - 1][1], self.pv[i - 1][0]['ty']) if len(v) == 1 else [-1, i])
                if nc:
                    pg = pages_of(rd.columns)
                    if not free:
                        npages = len(pg)
                    if len(pg) > 1:
                        return head, par, [[[-3, len(pg)]]], npages
                    for q in pg:
                        for r in range(1, len(q) + 1):
                            row = []
                            for n in cnames:
                                if n not in self.cn:
                                    row.append([-4, r])
                                    continue
                                j = self.cn.index(n) + 1
                                vals = self.cv[j - 1][1]
                                row.append(self.tok(q[n][r - 1], r, j, vals[r - 1] if r <= len(vals) else None, self.cv[j - 1][0]['ty']))
                            col.append(row)
                return head, par, col, npages
            finally:
                if hasattr(getattr(rd, 'openf', None), 'close'):
                    rd.openf.close()
        return vf.call(go)

    @staticmethod
    def present(rd, acc, given):
        """Names defined in the file; where data were read, in the order of the data."""
        names_ = []
        for n in given:
            try:
                getattr(rd, acc + '_type')(n)
                names_.append(n)
            except KeyError:
                pass
        try:
            data = pages_of(getattr(rd, acc + 's'))
        except AttributeError:
            data = []
        if data and data[0].dtype.names:
            order = [x for x in data[0].dtype.names if x != 'row_counts']
            it = iter([x for x in order if x in names_])
            names_ = [next(it) if x in order else x for x in names_] + [x for x in order if x not in names_]
        return names_

    def tok(self, v, r, i, want, ty):
        try:
            if isinstance(v, bytes):
                v = v.decode()
            elif ty == 'double':
                v = float(v)
            elif ty in ('long', 'short'):
                if not np.issubdtype(np.asarray(v).dtype, np.integer):
                    return [-2, i]
                v = int(v)
            else:
                v = str(v)
            return [r, i] if same(v) == same(want) else [-1, i]
        except Exception:
            return [-1, i]


def row_runs(col):
    """Consecutive complete rows [first, last]; a row that is not complete stays as it is."""
    out = []
    for row in col:
        r = row[0][0]
        if r > 0 and all(t == [r, j] for j, t in enumerate(row, 1)):
            if out and len(out[-1]) == 2 and isinstance(out[-1][0], int) and out[-1][1] == r - 1:
                out[-1][1] = r
            else:
                out.append([r, r])
        elif len(out) < 20:
            out.append([-1, -1])
    return out[:50]


def run_writer(job):
    hist, seed = job
    rng = random.Random(seed)
    ev = []
    with vf.scratch() as d:
        pre = hist[0]['pre']
        run = WriterRun(d, pre, rng)
        cols = []
        for n, op in enumerate(hist[1:], 1):
            e = dict(op)
            if op['op'] == 'par':
                e['status'] = run.par(op['p'])[0]
            elif op['op'] == 'col':
                cols.append(op['c']['n'])
                e['status'] = run.col(op['c'])[0]
            elif op['op'] == 'save':
                e['status'] = run.save(op['t'], op['mode'])
                e['files'], e['extra'] = run.versions(op['t'], n if len(set(cols)) <= 1 else None)
            else:
                buf = bool(rng.getrandbits(1))
                st, v = run.read(op['t'], buf)
                e.update(status='ok' if st == 'ok' else st + str(v), buf=int(buf))
                e['head'], e['par'], e['col'], e['npages'] = v if st == 'ok' else ([], [], [], 0)
                e['runs'] = int(len(e['col']) > 400)
                if e['runs']:
                    e['col'] = row_runs(e['col'])
            ev.append(e)
        # the arrays handed over must not have been touched
    return dict(pre=pre, ev=ev, seed=seed)


PRE = {'00': '[t1 |-> 0, t2 |-> 0]', '10': '[t1 |-> 1, t2 |-> 0]', '11': '[t1 |-> 1, t2 |-> 1]'}


def writer_model(ck, p, c, ns, maxp, maxc, saves, reads, modes, tgts, pres, metas, free, simulate=None, depth=None):
    q = lambda xs: '{%s}' % ','.join('"%s"' % x for x in xs)
    return ck.model('MC_SddsWriter', dict(
        PTypes=q(p), CTypes=q(c), Ns='{%s}' % ','.join(map(str, ns)), MaxP=maxp, MaxC=maxc, MaxSave=saves, MaxRead=reads,
        Modes=q(modes), Tgts=q(tgts), Pres='{%s}' % ','.join(PRE[x] for x in pres), Metas='{%s}' % ','.join(map(str, metas)),
        Free='TRUE' if free else 'FALSE'), ['Complete', 'Emit'], ['RefusalIsNoop', 'OneTarget'], simulate=simulate, depth=depth)


def with_reads(h):
    """Append a read of every target written, in case the behaviour did not end with one."""
    return h


def D05(ck):
    T = ['double', 'long', 'short']
    M = ['ascii', 'binary']
    # every type/rows/fixed combination of small writers, saved once and read
    beh = writer_model(ck, T, T, [0, 1, 2], 1, 1, 1, 1, M, ['t1'], ['00'], [0, 1], False)
    beh += writer_model(ck, ['double', 'short'], T, [1, 3], 1, 2, 1, 1, M, ['t1'], ['10'], [0], False)
    beh += writer_model(ck, T, ['long'], [2], 2, 1, 1, 1, M, ['t2'], ['00'], [1], False)
    # strings as fixed values / ASCII parameters
    beh += [h for h in writer_model(ck, ['string', 'long'], ['double'], [0, 2], 2, 1, 1, 1, ['ascii'], ['t1'], ['00'], [1], False)]
    # string columns in ASCII files
    beh += writer_model(ck, ['double'], ['string', 'long'], [0, 1, 3], 1, 2, 1, 1, ['ascii'], ['t1'], ['00'], [0], False)
    sim = writer_model(ck, T, T, [2, 5], 4, 5, 3, 3, M, ['t1', 't2'], ['00', '11'], [0, 1], True,
                       simulate=20000 if ck.thorough else 1500, depth=16)
    # keep only histories whose reads have something to read (always true) and at least one valid save
    beh += sim
    jobs = [(h, ck.seed * 1000003 + i) for i, h in enumerate(beh)]
    if not ck.thorough:
        jobs = [j for k, j in enumerate(jobs) if k < 3000 or k % 2 == 0]
    # large, typical beams
    for i in range(60 if ck.thorough else 12):
        n = ck.rng.randint(100, 3000)
        rows = [70000 if i in (0, 3) else n, 150, 300][i % 3]
        mode = M[i // 3 % 2]
        cs = [dict(ty=ck.rng.choice(T + ['string'] * (mode == 'ascii')), n=rows, me=1) for _ in range(ck.rng.randint(66, 140) if i == 1 else 3 if rows > 3000 else ck.rng.randint(2, 7))]
        h = [dict(op='pre', pre=dict(t1=0, t2=0))] + [dict(op='par', p=dict(ty=ck.rng.choice(T), fx=ck.rng.random() < .3, me=1)) for _ in range(3)]
        h += [dict(op='col', c=c) for c in cs] + [dict(op='save', t='t1', mode=mode), dict(op='read', t='t1')]
        jobs.append((h, ck.seed * 31 + i))
    traces = vf.pmap(run_writer, jobs)
    can = copy.deepcopy([t for t in traces if t['ev'][-1]['op'] == 'read' and t['ev'][-1]['status'] == 'ok' and t['ev'][-1]['col']][:1])
    for t in can:
        t['ev'][-1]['col'][0][0] = [-1, 1]
    ck.extra['reads_back'] = sum(e['op'] == 'read' for t in traces for e in t['ev'])
    ck.validate('Trace_SddsWriter', traces, can)


def D06(ck):
    M = ['ascii', 'binary']
    beh = writer_model(ck, ['long'], ['double'], [0, 1, 2], 1, 2, 1, 0, M, ['t1', 't2'], ['00', '10', '11'], [0], False)
    beh += writer_model(ck, ['double'], ['double', 'long'], [1, 2, 4], 0, 3, 1, 0, M, ['t1'], ['00', '10'], [0], False)
    # refused in between valid saves: free interleaving of creates, saves and reads
    beh += writer_model(ck, ['double'], ['double'], [1, 3], 0, 2, 2, 1, M, ['t1'], ['10'], [0], True)
    beh += writer_model(ck, ['double'], ['double', 'short'], [1, 2, 3], 1, 3, 3, 2, M, ['t1', 't2'], ['00', '10', '11'], [0], True,
                        simulate=20000 if ck.thorough else 1500, depth=12)
    # many columns and many rows, one column of them shorter or longer than the rest
    for i in range(300 if ck.thorough else 60):
        n, k = ck.rng.choice([3, 40, 900, 2000]), ck.rng.randint(4, 9)
        ns = [n] * k
        if i % 5:
            ns[ck.rng.randrange(k)] += ck.rng.choice([-1, 1, 1 - n, n, -n, 1 - n])
        h = [dict(op='pre', pre=dict(t1=i % 2, t2=0))]
        h += [dict(op='par', p=dict(ty='long', fx=False, me=0)) for _ in range(i % 3)]
        h += [dict(op='col', c=dict(ty=ck.rng.choice(['double', 'long']), n=x, me=0)) for x in ns]
        beh.append(h + [dict(op='save', t='t1', mode=M[i % 2])] + ([] if len(set(ns)) > 1 else [dict(op='read', t='t1')]))
    jobs = [(h, ck.seed * 1000003 + i) for i, h in enumerate(beh)]
    traces = vf.pmap(run_writer, jobs)

    def refused(e):
        return e['op'] == 'save' and e['status'] in ('ok', 'err')
    ck.extra['saves'] = sum(e['op'] == 'save' for t in traces for e in t['ev'])
    can = copy.deepcopy([t for t in traces if t['pre']['t1'] == 1 and t['ev'][-1]['op'] == 'save' and t['ev'][-1]['files']['t1'] == -1][:1])
    for t in can:
        t['ev'][-1]['files']['t1'] = -2
    ck.validate('Trace_SddsWriter', traces, can)
