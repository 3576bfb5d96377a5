"""T01-T03: Trace3D and TraceWin input files."""
import copy
import math
import os
import random

import vf

C = 299792458.0


def number(g, n, d):
    v = n / d
    s = repr(v) if d != 1 or g.random() < .4 else str(n)
    k = g.random()
    if k < .15:
        s = '%.9e' % v
    elif k < .25 and float('%.6E' % v) == v:
        s = '%.6E' % v
    elif k < .32 and s.startswith('0.'):
        s = s[1:]
    elif k < .4 and v >= 0:
        s = '+' + s
    elif k < .5 and s.endswith('.0'):
        s = s[:-1]
    elif k < .6 and abs(v) >= 1 and d == 1:
        s = '%.4f' % v
    return s


def case(g, s):
    k = g.random()
    return s.upper() if k < .4 else s if k < .8 else s.capitalize()


class Text:
    def __init__(self, b, g):
        self.b, self.g = b, g

    def t3(self, i, c):
        g = self.g
        label = g.choice(['D', 'Q1', 'bend 3', 'gap', 'TANK-2', 'Entrance', '', 'DELTA(3)', 'a(1,2)=5', 'nt(4)=9', 'ent=3', 'x;y', 'cmt(2)', '1.5', 'B1 (45 deg)'])
        vals = [number(g, *v) for v in c['vals']]
        sep = g.choice([', ', ',', ' , ', '  ', ' '])
        mid = g.choice([' ', '  ', ', ', ' , '])
        eq = g.choice(['=', '= ', ' = '])
        n = self.name(c)
        k = ' ' * g.randint(0, 2)
        return "%scmt(%s)=%s%snt(%s)%s%d%sa(1,%s)%s%s" % (k, n, "'%s'" % label, mid, n, eq, c['nt'], mid, n, eq, sep.join(vals))

    def name(self, c):
        return '%03d' % int(c['name'])

    def tw(self, i, c):
        g = self.g
        vals = [v / 1.0 if isinstance(v, float) else number(g, *v) for v in c['vals']]
        if c['kw'] == 'freq':
            n, d = c['vals'][0]
            vals = [repr(n / d * C)]
        if c['kw'] == 'field_map':
            vals.append(g.choice(['map1', 'e_field_20.edz', '1D']))
        return ' ' * g.randint(0, 2) * (g.random() < .3) + g.choice([' ', '  ', '\t']).join([case(g, c['kw'])] + vals)

    def text(self):
        g = self.g
        out = []
        if self.b['code'] == 't3' and g.random() < .5:
            out += ["&data", "er= 938.28, q= 1., w= 2.5,"][:g.randint(1, 2)]
        for i, c in enumerate(self.b['cards']):
            if g.random() < .15:
                out.append(g.choice(['', '  ', '; a comment', ';cmt(009)=\'x\' nt(009)=1 a(1,009)= 3', '; drift 100 20 0', ';']))
            l = self.t3(i, c) if self.b['code'] == 't3' else self.tw(i, c)
            if g.random() < .15:
                l += g.choice([' ; note 12', ';5', '  ;'])
            out.append(l)
        if self.b['code'] == 't3' and g.random() < .4:
            out.append('&end')
        if g.random() < .3:
            out.append(g.choice(['', ';end', '   ']))
        s = '\n'.join(out) + ('\n' if g.random() < .7 else '')
        return s if self.b['code'] == 't3' or s.strip() else s


def observe(bl):
    out = []
    for e in bl.get_beamline_elements():
        ps = []
        for k, v in e.parameters.items():
            v = float(v)
            hz = int(v == 1.0)
            if k == 'frequency':
                v = v / 1e6 / C
            ps.append(dict(k=k, hz=hz if k == 'frequency' else 0, r=[vf.rat(v, 200000, 1e-11), vf.rat(v / math.pi, 20000, 1e-13), vf.rat(v * 1e6, 100000, 1e-12),
                                         vf.rat(v / math.pi * 1e3, 60000, 1e-12)]))
        out.append(dict(name=str(e.name), type=e.type, pars=ps))
    return out


def run(job):
    b, ops, seed = job
    g = random.Random(seed)
    from rsbeams.rslattice import trace3d_parser as tp
    t = Text(b, g)
    ev = []
    hdr = copy.deepcopy(b['cards'])
    if b['code'] == 't3':
        for c in hdr:
            c['name'] = t.name(c)
    with vf.scratch() as d:
        p = os.path.join(d, 'in.t3')
        txt = t.text()
        with open(p, 'w') as f:
            f.write(txt)
        pr = []

        def parse():
            pr.append((tp.Trace3d if b['code'] == 't3' else tp.TraceWin)(p, 'Line'))
            return observe(pr[0]())
        for op in ['parse'] + ops:
            if op == 'parse':
                st, v = vf.call(parse)
            else:
                st, v = vf.call(lambda: (getattr(pr[0], 'handle_' + op)(), observe(pr[0].beamline))[1])
            ev.append(dict(op=op, status=st if st == 'ok' else st + '-' + str(v), obs=v if st == 'ok' else []))
            if st != 'ok':
                break
    return dict(code=b['code'], cards=hdr, ev=ev, _text=txt, _seed=seed)


VALS = [(0, 1), (1, 1), (-5, 1), (3, 2), (-7, 4), (25, 1), (1, 8), (12, 5), (-1, 10), (40, 1), (-30, 1), (90, 1)]


def model(ck, code, kinds, counts, cards, simulate=None, vals=VALS):
    k = '{%s}' % ', '.join(str(x) if code == 't3' else '"%s"' % x for x in kinds)
    tv = ['<<%d, %d>>' % v for v in vals]
    return ck.model('MC_Trace3d', dict(Code='"%s"' % code, Kinds=k, Counts='{%s}' % ', '.join(map(str, counts)), Vals='{%s}' % ', '.join(tv),
                                       Fixed='<<%s>>' % ', '.join(tv), MaxCards=cards, Rand='TRUE' if simulate else 'FALSE'),
                    ['Incremental', 'KeepLength', 'Emit'] if not simulate else ['Emit'], simulate=simulate, depth=cards + 2 if simulate else None)


def settle(ck, beh, ops_of, canary, cap, far=()):
    seen, uniq = set(), []
    for b in beh:
        k = repr(b)
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    if len(uniq) > cap:
        uniq = ck.rng.sample(uniq, cap)
    uniq += far     # long inputs
    traces = vf.pmap(run, [(b, ops_of(b), ck.seed * 1000003 + i) for i, b in enumerate(uniq)])
    can = []
    for t in traces:
        if all(e['status'] == 'ok' for e in t['ev']) and t['ev'][-1]['obs']:
            c = copy.deepcopy(t)
            if canary(c['ev'][-1]['obs']):
                can.append(c)
                break
    ck.extra['elements_compared'] = sum(len(e['obs']) for t in traces for e in t['ev'])
    ck.validate('Trace_Trace3d', traces, can)


def drop_last(o):
    o.pop()
    return True


def T01(ck):
    big = ck.thorough
    beh = model(ck, 't3', [1, 3, 8, 9, 10], [1, 2, 4, 5], 3)
    beh += model(ck, 't3', [1, 3, 10], [1, 2, 5, 7], 1)
    beh += model(ck, 't3', [1, 3, 8, 9, 10], [1, 2, 3, 4, 5], 12, simulate=20000 if big else 1500)
    beh += model(ck, 't3', [1, 3, 8, 9, 10], [1, 2, 3, 4, 5], 1, simulate=8000 if big else 600)
    far = model(ck, 't3', [1, 3, 8, 9, 10], [1, 2, 3, 4, 5], 1050, simulate=10 if big else 1)
    far += model(ck, 't3', [1, 3, 8, 9, 10], [1, 2, 3, 4, 5], 130, simulate=50 if big else 3)
    settle(ck, beh, lambda b: [], drop_last, 60000 if big else 5000, far)


def T02(ck):
    big = ck.thorough
    kinds = ['drift', 'quad', 'dtl_cel', 'ncells', 'set_sync_phase', 'freq', 'field_map']
    beh = model(ck, 'tw', kinds, [0, 1, 3, 8, 11], 3)
    beh += model(ck, 'tw', ['drift', 'quad', 'freq'], [0, 1, 2, 5, 9], 3)
    beh += model(ck, 'tw', kinds, [0, 1, 2, 3, 5, 8, 9, 11, 14], 10, simulate=20000 if big else 1500)
    beh += model(ck, 'tw', ['drift', 'quad', 'dtl_cel', 'freq', 'set_sync_phase'], [0, 1, 2, 3, 8, 14], 8, simulate=10000 if big else 800)
    far = model(ck, 'tw', kinds, [0, 1, 8, 9, 14], 260, simulate=50 if big else 6)
    for b in far:       # cavities are refused before the first frequency
        b['cards'].insert(0, dict(kw='freq', vals=[[12, 5]]))
    ck.extra['long_files'] = len(far)
    settle(ck, beh, lambda b: [], drop_last, 60000 if big else 5000, far)


def T03(ck):
    big = ck.thorough
    g = ck.rng
    ok = []
    # bends between edges, cavities between drifts
    beh = model(ck, 't3', [1, 8, 9, 10], [4, 5], 4) + model(ck, 't3', [1, 10], [5], 6) + model(ck, 't3', [8, 9], [5], 6)
    vals = [v for v in VALS if v[0] >= 0]
    base = [b for b in model(ck, 't3', [1, 3, 8, 9, 10], [5], 1, simulate=4000)]
    pool = {}
    for b in base:
        pool.setdefault(b['cards'][0]['nt'], []).append(b['cards'][0])
    for k in range(20000 if big else 1500):
        seq = []
        for _ in range(g.randint(1, 5) if k else 260):
            u = g.choice([[9, 8, 9], [1, 10, 1], [1, 10, 1, 10, 1], [3], [1], [9, 8, 9, 9, 8, 9]])
            seq += [copy.deepcopy(g.choice(pool[x])) for x in u]
        for i, c in enumerate(seq, 1):
            c['name'] = str(i)
        nts = {c['nt'] for c in seq}
        ok.append(dict(code='t3', cards=seq, ops=(8 in nts) + 2 * (10 in nts)))

    def ops(b):
        o = (['bends'] if b['ops'] & 1 else []) + (['cavities'] if b['ops'] & 2 else [])
        if len(o) > 1 and len(b['cards']) % 2:
            o.reverse()
        return o

    def can(o):
        for e in o:
            if e['type'] in ('rfca', 'sbend'):
                for p in e['pars']:
                    if p['k'] in ('phase', 'e1'):
                        p['r'] = [[17, 3, 1]] * 4
                        return True
        return False
    beh = [b for b in beh if b['ops']]
    if len(beh) > 2500 and not big:
        beh = g.sample(beh, 2500)
    settle(ck, beh + ok, ops, can, 60000)
