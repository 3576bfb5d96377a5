"""L01, L02: elegant lattice files."""
import copy
import math
import os
import random

import vf

ENAMES = ['d', 'd1', 'd10', 'qf', 'qfh', 'q', 'b.1', 'm_1', 'linac', 'w-1', 'k1', 'l']
LNAMES = ['line1', 'cell', 'arc', 'd2', 'ring', 'half', 'sub.1']
TYPES = ['drift', 'quad', 'kquad', 'sbend', 'mark', 'watch', 'rfca']
KEYS = ['l', 'k1', 'angle', 'e1', 'n_kicks', 'filename', 'mode', 'group']
STRS = ['', '%s.w1', 'abc', 'fit', 'a-b', 't', 'file_1.sdds', 'wake:z', 'x=1', '/home/u/in.dat', 'a,b', 'x, k1=3', 'a!b', "it's", 'u: line=(v)', 'nan',
        '1_2', '2pi', 'inf', 'two words', '(a)', '1e', 'infinity', 'a & b']
LONG = ['quadrupole_of_the_first_arc_section_number_%02d' % i for i in range(1, 9)] + ['the.transfer-line_between_ring_and_linac_%d' % i for i in (1, 2)]
MANY = KEYS + ['p%d' % i for i in range(1, 30)]
VARS = ['k1', 'l', 'q', 'x1', 'spin', 'e1', 'd1', 'kq', 'strength_of_family_1', 'strength_of_family_2', 'strength_of_family_10', 'a.b', 'x12']

q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
tup = lambda xs: '{%s}' % ', '.join('<<%d, %d>>' % x for x in xs)


class Text:
    """A lattice as the text of an lte file, in a drawn layout."""

    def __init__(self, lat, g):
        self.lat, self.g = lat, g
        self.vars = VARS if g.random() < .5 else g.sample(VARS, len(VARS))
        # words that are variables elsewhere, but not in this file
        free = self.vars[len(lat['vars']):]
        self.strs = [g.choice(free) if s.isalpha() and free and g.random() < .4 else s for s in STRS]
        if len(set(self.strs)) < len(STRS):
            self.strs = STRS
        self.blanks = g.choice([' ', ' ', ' \t'])

    def case(self, s):
        g = self.g
        k = g.random()
        return s.upper() if k < .4 else s if k < .8 else ''.join(g.choice([c, c.upper()]) for c in s)

    def sp(self, p=.25):
        g = self.g
        return ''.join(g.choice(self.blanks) for _ in range(g.randint(1, 3))) if g.random() < p else ''

    def name(self, n):
        n = self.case(n)
        return self.g.choice(['"%s"', "'%s'" if self.g.random() < .3 else '"%s"']) % n if self.g.random() < .35 else n

    def number(self, n, d):
        g = self.g
        v = n / d
        s = repr(v) if d != 1 or g.random() < .4 else str(n)
        k = g.random()
        if k < .15:
            s = '%.9e' % v
        elif k < .25:
            s = ('%.6E' % v) if float('%.6E' % v) == v else s
        elif k < .35 and s.startswith('0.'):
            s = s[1:]
        elif k < .4 and v >= 0 and s[0] != '+':
            s = '+' + s
        return s

    def expr(self, ex):
        out = []
        for t in ex:
            if t['t'] == 'n':
                out.append(self.number(t['n'], t['d']))
            elif t['t'] == 'v':
                out.append(self.case(self.vars[t['n'] - 1]))
            else:
                out.append(self.case(t['t']))
        text = out[0]
        for s in out[1:]:
            text += (self.sp(1) if self.g.random() < .2 else ' ') + s
        return text

    def pieces(self, first, rest):
        """Join at commas, possibly continuing on the next line."""
        g = self.g
        out = first
        for r in rest:
            out += self.sp() + ','
            if g.random() < .2:
                out += self.sp(.6) + '&' + self.sp(.2)
                if g.random() < .25:
                    out += '! ' + g.choice(['continued', 'a: b, c=1', 'line=(x,y)'])
                out += '\n' + self.sp(.7)
                if g.random() < .12:
                    out += '! between\n'
            else:
                out += self.sp()
            out += r
        return out

    def element(self, e):
        ps = []
        for p in e['pars']:
            v = p['v']
            if v['t'] == 'num':
                s = self.number(*v['x'])
                if self.g.random() < .2:
                    s = '"%s"' % s
            elif v['t'] == 'str':
                s = self.strs[v['x'][0]]
                s = '"%s"' % s if self.g.random() < .6 or not s or set(s) & set(":=,!'& ") else s
            else:
                s = '"%s%s%s"' % (self.sp(.1), self.expr(v['x']), self.sp(.1))
            ps.append(self.case(p['k']) + self.sp(.2) + '=' + self.sp(.2) + s)
        return self.pieces(self.sp(.15) + self.name(e['name']) + self.sp(.1) + ':' + self.sp(.8) + self.case(e['type']), ps)

    def items(self, body):
        out = []
        for it in body:
            c = '' if not it['c'] else str(max(it['c'], 0)) + self.sp(.1) + '*' + self.sp(.1)
            if it['k'] == 'g':
                sub = self.items(it['g'])
                out.append(c + '(' + self.sp(.15) + sub[0] if len(sub) == 1 else c + '(' + self.sp(.15) + sub[0])
                out += sub[1:]
                out[-1] += self.sp(.15) + ')'
            else:
                src = self.lat['elems'] if it['k'] == 'e' else self.lat['lines']
                out.append(c + self.name(src[it['i'] - 1]['name']))
        return out

    def line(self, l):
        it = self.items(l['body'])
        head = self.sp(.15) + self.name(l['name']) + self.sp(.1) + ':' + self.sp(.8) + self.case('line') + self.sp(.15) + '=' + self.sp(.15) + '(' + self.sp(.2)
        return self.pieces(head + it[0], it[1:]) + self.sp(.15) + ')'

    def text(self):
        g = self.g
        defs = [('e', self.element(e), any(p['v']['t'] == 'rpn' for p in e['pars'])) for e in self.lat['elems']]
        defs += [('l', self.line(l), False) for l in self.lat['lines']]
        if g.random() < .7:
            g.shuffle(defs)
        first = [d for d in defs if not d[2] and g.random() < .3]
        defs = [d for d in defs if d not in first]
        vs = ['%% %s sto %s' % (self.expr(v), self.case(self.vars[i])) for i, v in enumerate(self.lat['vars'])]
        out = []
        for block in [d[1] for d in first] + vs + [d[1] for d in defs]:
            k = g.random()
            if k < .12:
                out.append(g.choice(['', '   ', '!', '! comment', '  ! Q1: quad, l=1', '! line=(a,b)', '!% 1 sto x1', '! ends with &']))
            if g.random() < .12:
                block += self.sp(.8) + '!' + g.choice([' note', 'x: drift, l=3', ' 100% sure', ' &'])
            out.append(block)
        if g.random() < .25:
            out.append(g.choice(['', '! end', '  ', '! last: line=(d)']))
        return '\n'.join(out) + ('\n' if g.random() < .75 else '')


def observe(bl, strs):
    out = []
    for e in bl.get_beamline_elements():
        ps = []
        for k, v in e.parameters.items():
            if isinstance(v, str):
                try:
                    ps.append(dict(k=k, s=[s.lower() for s in strs].index(v) or 99, r=[]))
                    if v == '':
                        ps[-1]['s'] = 100
                except ValueError:
                    ps.append(dict(k=k, s=-1, r=[]))
            else:
                ps.append(dict(k=k, s=0, r=[vf.rat(float(v) / math.pi ** p) for p in (0, 1, 2)]))
        out.append(dict(name=e.name, type=e.type, pars=ps))
    return out


def run(job):
    lat, seed = job
    g = random.Random(seed)
    from rsbeams.rslattice.lte_parser import BeamlineParser
    txt = Text(lat, g)
    ev = []
    with vf.scratch() as d:
        p = os.path.join(d, 'lat.lte')
        t = txt.text()
        with open(p, 'w') as f:
            f.write(t)
        for i, l in enumerate(lat['lines'], 1):
            def go():
                if g.random() < .2:
                    pr = BeamlineParser(p, g.choice(lat['lines'])['name'])
                    pr.set_beamline(txt.case(l['name']))
                else:
                    pr = BeamlineParser(p, txt.case(l['name']))
                return observe(pr(), txt.strs)
            st, v = vf.call(go)
            ev.append(dict(op='parse', line=i, status=st if st == 'ok' else st + '-' + str(v), obs=v if st == 'ok' else []))
    enc = copy.deepcopy(lat)
    for e in enc['elems']:
        for pp in e['pars']:
            if pp['v']['t'] == 'str' and pp['v']['x'][0] == 0:
                pp['v']['x'][0] = 100
    return dict(lat=enc, ev=ev, _text=t, _seed=seed)


def model(ck, simulate=None, **k):
    c = dict(ENames=q(ENAMES), LNames=q(LNAMES), Types=q(TYPES), Keys=q(KEYS), Nums='{}', Strs='{}', VNums='{}', VOps='{}',
             Coefs='{0, 2}', MaxVars=0, MaxElems=1, MaxPars=0, MaxLines=1, MaxTok=3, MaxVarTok=3, MaxRpnTok=3, MaxNest=1, MaxLen=40,
             Rand='TRUE' if simulate else 'FALSE')
    c.update(k)
    return ck.model('MC_Lte', c, ['Counted', 'Grouping', 'Emit'] if not simulate else ['Emit'], simulate=simulate, depth=1500 if simulate else None)


def settle(ck, beh, canary, cap):
    seen, uniq = set(), []
    for b in beh:
        k = repr(b)
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    beh = uniq
    if len(beh) > cap:
        beh = ck.rng.sample(beh, cap)
    traces = vf.pmap(run, [(b, ck.seed * 1000003 + i) for i, b in enumerate(beh)])
    can = []
    for t in traces:
        c = copy.deepcopy(t)
        if all(e['status'] == 'ok' for e in t['ev']) and canary(c['ev'][-1]['obs']):
            can.append(c)
            break
    ck.extra['lines_parsed'] = sum(len(t['ev']) for t in traces)
    ck.extra['elements_compared'] = sum(len(e['obs']) for t in traces for e in t['ev'])
    ck.validate('Trace_Lte', traces, can)


NUMS = [(1, 2), (-3, 4), (0, 1), (7, 1), (5, 4), (-12, 5), (1, 10)]
VNUMS = [(1, 1), (2, 1), (-3, 2), (9, 4), (1, 4), (10, 1)]
VOPS = ['+', '-', '*', 'mult', '/', 'sqrt', 'pi']


def L01(ck):
    big = ck.thorough
    # every line of up to four items over two elements, one level of groups; then two lines, the second using the first
    beh = model(ck, ENames=q(['d1', 'd']), LNames=q(['cell', 'd10']), Types=q(['drift']), MaxElems=2, MaxTok=4 if big else 3, MaxNest=2)
    beh += model(ck, ENames=q(['q']), LNames=q(['cell', 'd2']), Types=q(['quad']), MaxElems=1, MaxLines=2, MaxTok=2, MaxNest=1, Coefs='{0, 2}' if not big else '{0, 2, 3}')
    beh += model(ck, ENames=q(['q', 'qf']), LNames=q(['a']), Types=q(['mark']), MaxElems=2, MaxTok=2, MaxNest=2, Coefs='{-1, 0, 2, 11}')
    sim = model(ck, simulate=20000 if big else 1500, MaxElems=4, MaxPars=1, Nums=tup(NUMS[:3]), Strs='{1}', MaxLines=4, MaxTok=5, MaxNest=2,
                Coefs='{-1, 0, 1, 2, 3, 12}', MaxLen=120)
    # long lines of many elements with long names, deep parentheses
    far = model(ck, simulate=300 if big else 40, ENames=q(ENAMES + LONG[:8]), LNames=q(LNAMES + LONG[8:]), MaxElems=14, MaxPars=0, MaxLines=5,
                MaxTok=40, MaxNest=8, Coefs='{0, 1, 2, 3, 101, 130}', MaxLen=600)
    far += model(ck, simulate=100 if big else 12, MaxElems=2, MaxLines=2, MaxTok=12, MaxNest=10, Coefs='{2}', MaxLen=4100)
    cap = 40000 if big else 2500
    if len(beh) > cap:
        beh = ck.rng.sample(beh, cap)

    def can(o):
        if len(o) < 2:
            return False
        o.append(o[0])
        return True
    settle(ck, far + beh + sim, can, 2 * cap)


def L02(ck):
    big = ck.thorough
    one = dict(ENames=q(['q']), LNames=q(['a']), Types=q(['quad']), Coefs='{0}', MaxTok=1, MaxNest=0)
    # every expression of up to four tokens; every pair of literal parameters
    beh = model(ck, Keys=q(['l']), VNums=tup(VNUMS[:3]), VOps=q(VOPS), MaxPars=1, MaxRpnTok=5 if big else 4, **one)
    beh += model(ck, Keys=q(['l', 'filename', 'k1']), Nums=tup(NUMS[:4]), Strs='0..%d' % (len(STRS) - 1), MaxPars=2, **one)
    beh += model(ck, Keys=q(['l']), VNums=tup(VNUMS[:2]), VOps=q(['+', '-', '*', '/']), MaxVars=2, MaxVarTok=3, MaxRpnTok=3, MaxPars=1, **one)[:4000]
    sim = model(ck, simulate=25000 if big else 1500, MaxVars=5, MaxElems=3, MaxPars=4, Nums=tup(NUMS), Strs='1..%d' % (len(STRS) - 1), VNums=tup(VNUMS),
                VOps=q(VOPS), MaxVarTok=5, MaxRpnTok=5, MaxTok=4, MaxNest=1)
    # many parameters, many variables, long expressions
    far = model(ck, simulate=200 if big else 40, MaxVars=12, MaxElems=2, MaxPars=24, Keys=q(MANY), Nums=tup(NUMS), Strs='1..%d' % (len(STRS) - 1),
                VNums=tup(VNUMS), VOps=q(VOPS), MaxVarTok=5, MaxRpnTok=30, MaxTok=3, MaxNest=1)
    cap = 60000 if big else 4500
    if len(beh) > cap:
        beh = ck.rng.sample(beh, cap)

    def can(o):
        for e in o:
            for p in e['pars']:
                if p['s'] == 0 and p['r'][0][2]:
                    p['r'] = [[p['r'][0][0] + p['r'][0][1], p['r'][0][1], 1]] * 3
                    return True
        return False
    settle(ck, far + beh + sim, can, 2 * cap)
