"""B01-B05: beamline trees, element parameters, files, transfer matrices."""
import copy
import json
import math
import os
import random

import numpy as np

import vf

STR = ['', 'abc', 'WAKE.sdds', '1.0', 'a b', 'yes', '%s.w1', 'null']
# real numbers that must come back to the last bit
REALS = [1e-13, -1.6e-19, 6.02214076e+23, 0.1 + 0.2, 1 / 3, 1.7976931348623157e+308, 5e-324, 123456789.12345679, 2.5e-8]
THETA = {1: math.acos(0.6), 2: math.log(2.0), 3: math.pi / 2}


def lit(x):
    """A Python structure as TLA text."""
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, dict):
        return '[%s]' % ', '.join('%s |-> %s' % (k, lit(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return '<<%s>>' % ', '.join(lit(v) for v in x)
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(lit(v) for v in x))
    return str(x)


def litset(xs):
    return '{%s}' % ', '.join(lit(x) for x in xs)


def P(**k):
    return [dict(k=a, v=list(b)) for a, b in k.items()]


def T(type, **k):
    return dict(type=type, pars=P(**k))


def wild(g, s):
    k = g.randrange(4)
    return s if k == 0 else s.upper() if k == 1 else s.capitalize() if k == 2 else ''.join(g.choice([c, c.upper()]) for c in s)


# concrete names of elements and lines: alike but for case or blanks, like numbers, like keys of the file
NAMES = [['a', 'b', 'c', 'd'], ['Q1', 'q1', 'Q1 ', 'q1.'], ['1', '01', '1.0', '1e0'], ['l', 'type', 'name', 'L'], ['null', 'yes', '~', ''],
         ['drift', 'Drift', 'quadrupole', 'watch'], ['q:1', '#1', '- a', '"a"'], ['b', 'bb', 'bbb', 'bbbb']]
# names of variables: those of parameters, those that mean something to a computer algebra system
VARS = [['var_1', 'var_2'], ['var_1', 'var_2'], ['L', 'K1'], ['K1', 'L'], ['l', 'k1'], ['E', 'I'], ['S', 'N'], ['pi', 'Q'], ['beta', 'gamma'], ['k', 'kq'],
        ['lambda', 'in']]
LINES = [['s', 't', 'u', 'v'], ['top', 'TOP', 'Top', 'top_1'], ['s 1', 'S 1', '', 's'], ['a', 'A', 'b', 'Q1']]


class Driver:
    def __init__(self, d, g):
        self.en = dict(zip('abcd', g.choice(NAMES)))
        self.ln = dict(zip('stuv', g.choice(LINES)))
        self.vn = dict(enumerate(g.choice(VARS), 1))
        # many elements and lines
        self.en.update({'n%d' % i: 'ELE%d' % i for i in range(1, 1000)})
        self.ln.update({'m%d' % i: 'LINE%d' % i for i in range(1, 30)})
        self.enr, self.lnr = {v: k for k, v in self.en.items()}, {v: k for k, v in self.ln.items()}
        from rsbeams.rslattice import Beamline
        self.B, self.d, self.g = Beamline.StructuredBeamline, d, g
        self.tops = [self.B('top')]
        self.lines, self.elems = [], []
        self.walk()

    # ---- values
    def value(self, v):
        t, n, d = v
        if t == 1:
            x = n / d
            k = self.g.random()
            if d == 1 and k < .5:
                return int(n)
            return np.float64(x) if k > .9 else x
        if t == 6:
            return np.float64(REALS[n]) if self.g.random() < .2 else REALS[n]
        return STR[n] if t == 2 else THETA[n] / d if t == 3 else self.vn[n]

    def token(self, v):
        try:
            if isinstance(v, str):
                if v in STR:
                    return [2, STR.index(v), 0]
                return [4, [i for i, x in self.vn.items() if x == v][0], 0]
            if isinstance(v, bool) or v is None:
                return [9, 9, 9]
            if float(v) in REALS:
                return [6, REALS.index(float(v)), 0]
            for i, th in THETA.items():
                for k in (1, 2, 3):
                    if abs(v - th / k) < 1e-12:
                        return [3, i, k]
            r = vf.rat(v)
            return [1, r[0], r[1]] if r[2] else [9, 0, 0]
        except Exception:
            return [9, 8, 8]

    def pars(self, ps):
        return {wild(self.g, p['k']): self.value(p['v']) for p in ps}

    # ---- observation
    def walk(self):
        def go(l):
            if not any(x is l for x in self.lines):
                self.lines.append(l)
            else:
                return
            for it in l.sequence:
                if isinstance(it, self.B):
                    go(it)
                elif not any(x is it for x in self.elems):
                    self.elems.append(it)
        # objects are numbered in the order they are first met; those already numbered keep their number
        for t in self.tops:
            go(t)

        def deep(l, seen):
            if id(l) in seen:
                return
            seen.add(id(l))
            for it in l.sequence:
                if isinstance(it, self.B):
                    if not any(x is it for x in self.lines):
                        self.lines.append(it)
                    deep(it, seen)
                elif not any(x is it for x in self.elems):
                    self.elems.append(it)
        for t in self.tops:
            deep(t, set())

    def eid(self, e):
        return next((i for i, x in enumerate(self.elems, 1) if x is e), 0)

    def lid(self, l):
        return next((i for i, x in enumerate(self.lines, 1) if x is l), 0)

    def observe(self):
        self.walk()
        lines, elems = [], []
        for l in self.lines:
            items = [dict(k='l', id=self.lid(i)) if isinstance(i, self.B) else dict(k='e', id=self.eid(i)) for i in l.sequence]
            st, flat = vf.call(lambda: [self.eid(e) for e in l.get_beamline_elements()])
            st2, ln = vf.call(lambda: l.length)
            lines.append(dict(name=self.lname(l), items=items, flat=flat if st == 'ok' else [-1],
                              len=vf.rat(ln) if st2 == 'ok' else [0, 1, 0],
                              elems=[dict(name=self.ename(n), id=self.eid(e)) for n, e in l.elements.items()],
                              subs=[dict(name=self.lnr.get(n, '?' + str(n)), id=self.lid(x)) for n, x in l.lines.items()]))
        for e in self.elems:
            st, ed = vf.call(lambda: e.edge)
            elems.append(dict(name=self.ename(e.name), type=e.type, edge=vf.rat(ed) if st == 'ok' else [0, 1, 0], home=self.lid(e.beamline),
                              pars=[dict(k=k, v=self.token(v)) for k, v in e.parameters.items()]))
        return dict(lines=lines, elems=elems)

    def ename(self, n):
        return self.enr.get(n, '?' + str(n)) if isinstance(n, str) else '?'

    def lname(self, l):
        if any(l is t for t in self.tops):
            return str(l.name)
        return self.lnr.get(l.name, '?' + str(l.name))

    # ---- operations
    def do(self, e):
        g, op = self.g, e['op']
        if op in ('add', 'copy'):
            line = self.lines[e['l'] - 1]
            if op == 'add':
                ty = g.choice([e['type'], e['type'].upper(), ' ' + e['type'].capitalize()])
                ps = self.pars(e['pars'])
            else:
                src = self.elems[e['from'] - 1]
                ty, ps = src.type, src.parameters
            k = dict(subline=True) if e.get('sub') else {}
            line.add_element(self.en[e['name']], ty, ps, **k)
            if op == 'add':
                ps['l'] = 77        # the caller's dictionary stays the caller's
                ps['zz'] = 1
        elif op == 'line':
            self.lines[e['l'] - 1].add_beamline(self.ln[e['name']])
        elif op in ('editname', 'editidx'):
            names = [wild(g, p['k']) for p in e['pars']]
            vals = [self.value(p['v']) for p in e['pars']]
            if len(names) == 1 and g.random() < .6:
                names, vals = names[0], vals[0]
            who = self.en[e['name']] if op == 'editname' else e['i'] - 1
            self.lines[e['l'] - 1].edit_element(who, names, vals, **({} if g.random() < .5 else dict(warnings=False)))
        elif op == 'set':
            p = e['pars'][0]
            self.elems[e['e'] - 1].parameters[wild(g, p['k'])] = self.value(p['v'])
        elif op == 'update':
            self.elems[e['e'] - 1].parameters.update(self.pars(e['pars']))
        elif op == 'setdefault':
            p = e['pars'][0]
            self.elems[e['e'] - 1].parameters.setdefault(wild(g, p['k']), self.value(p['v']))
        elif op == 'get':
            q = self.elems[e['e'] - 1].parameters
            k = wild(g, e['key'])
            if g.random() < .5:
                v = q.get(k)
            else:
                try:
                    v = q[k]
                except KeyError:
                    v = None
            e['got'] = [0, 0, 0] if v is None else self.token(v)
        elif op == 'in':
            e['got'] = [0, int(wild(g, e['key']) in self.elems[e['e'] - 1].parameters), 0]
        elif op == 'del':
            del self.elems[e['e'] - 1].parameters[wild(g, e['key'])]
        elif op == 'pop':
            e['got'] = self.token(self.elems[e['e'] - 1].parameters.pop(wild(g, e['key'])))
        elif op == 'refuse':
            if e['what'] == 'length':
                g.choice(self.lines).length = 3.0
            else:
                g.choice(self.elems).edge = 3.0
        elif op == 'save':
            self.lines[e['l'] - 1].save_beamline(os.path.join(self.d, e['f']))
        elif op == 'load':
            t = self.B('loaded')
            t.load_beamline(os.path.join(self.d, e['f']), 'elegant')
            self.tops.append(t)
            # a line that holds something refuses another file
            if t.sequence:
                t.load_beamline(os.path.join(self.d, e['f']), 'elegant')
        elif op == 'matrix':
            self.matrix(e)

    def matrix(self, e):
        line = self.lines[e['l'] - 1]
        m = line.generate_matrix(**({} if e['concat'] and self.g.random() < .5 else dict(concatenate=bool(e['concat']))))
        if isinstance(m, tuple):
            fn = m[0]
            vals = {self.vn[i]: n / d for i, (n, d) in enumerate(e['vals'], 1)}
            vals[self.vn[2]] = complex(vals[self.vn[2]])
            # its arguments are the variables in the order of the line
            names = dict.fromkeys(v for x in line.get_beamline_elements() for v in x.parameters.values() if isinstance(v, str))
            m = fn(*[vals[n] for n in names])
        ms = [m] if e['concat'] else list(m)
        a = 0 if e['plane'] == 1 else 2
        out, zero = [], 1
        for x in ms:
            x = np.array(x.tolist() if hasattr(x, 'tolist') else x, dtype=complex)
            if x.shape != (4, 4) or np.abs(x.imag).max() > 1e-9 or np.abs(x[:2, 2:]).max() > 0 or np.abs(x[2:, :2]).max() > 0:
                zero = 0
            x = x.real
            out.append([[vf.rat(x[a + i, a + j], 200000, 1e-12) for j in (0, 1)] for i in (0, 1)])
        e['m'], e['zero'] = out, zero


def run(job):
    h, seed = job
    every = 1 if len(h) < 30 else len(h) // 5
    g = random.Random(seed)
    ev = []
    with vf.scratch() as d:
        dr = Driver(d, g)
        for n, op in enumerate(h, 1):
            e = copy.deepcopy(op)
            if op['op'] in ('get', 'in', 'pop'):
                e['got'] = [0, 0, 7]
            if op['op'] == 'matrix':
                e['m'], e['zero'] = [], 0
            st, v = vf.call(dr.do, e, seconds=60)
            e['status'] = st
            # long histories are looked at now and then only
            e['look'] = int(n % every == 0 or n == len(h) or (op['op'] == 'load' and every > 1))
            st, o = vf.call(dr.observe if e['look'] else dr.walk)
            e['obs'] = o if st == 'ok' and e['look'] else dict(lines=[], elems=[])
            ev.append(e)
            if e['status'] != 'ok' and op['op'] != 'refuse':
                break
    return dict(ev=ev, _seed=seed)


q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
DR = T('drift', l=(1, 3, 2))
DRI = T('drift', l=(1, 2, 1))
BACK = T('drift', l=(1, -7, 4))
QU = T('quadrupole', l=(1, 1, 1), k1=(1, -5, 2))
MK = T('marker')
WA = T('watch', filename=(2, 6, 0), mode=(2, 3, 0))
SO = T('sbend', l=(1, 7, 4), angle=(1, 1, 8), e1=(1, 0, 1))


def model(ck, ops, en, ln, tpl, depth, edits=(), keys=(), lines=3, elems=3, fin='', simulate=None, inv=()):
    return ck.model('MC_Beamline', dict(
        Ops=q(ops), ENames=q(en), LNames=q(ln), Tpl=litset(tpl), Edits=litset(edits), Keys=q(keys), MaxLines=lines, MaxElems=elems,
        Depth=depth, Fin='"%s"' % fin, Rand='TRUE' if simulate else 'FALSE'), ['Emit'] + list(inv) + (['Members', 'Edges'] if 'load' not in ops and not simulate else []),
        ['Local'] if not simulate and 'load' not in ops else [], simulate=simulate, depth=depth + 2 if simulate else None)


def long(ck, ops, tpl, depth, edits=(), keys=(), fin='', names=40, n=3, lines=10):
    """A few long histories with many elements and lines."""
    e = ['n%d' % i for i in range(1, names + 1)]
    beh = model(ck, ops, e, ['m%d' % i for i in range(1, 9)], tpl, depth, edits, keys, lines=lines, elems=depth,
                fin=fin, simulate=n * (8 if ck.thorough else 1))
    out = {}
    for b in beh:
        out[json.dumps(b[:-1])] = b
    ck.extra['long_histories'] = len(out)
    return list(out.values())


def settle(ck, beh, canary, cap=None, more=()):
    beh = [b for b in beh if b]
    if cap and len(beh) > cap and not ck.thorough:
        beh = ck.rng.sample(beh, cap)
    elif len(beh) > 40000:
        beh = ck.rng.sample(beh, 40000)
    beh = list(more) + beh
    traces = vf.pmap(run, [(b, ck.seed * 1000003 + i) for i, b in enumerate(beh)])
    can = []
    for t in traces[len(more):]:
        if t['ev'][-1]['status'] == 'ok':
            c = copy.deepcopy(t)
            if canary(c['ev'][-1]):
                can.append(c)
                break
    for t in traces:
        for e in t['ev']:
            ck.extra['op_' + e['op']] = ck.extra.get('op_' + e['op'], 0) + 1
    ck.validate('Trace_Beamline', traces, can)


def B01(ck):
    beh = model(ck, ['add', 'line', 'sub'], ['a', 'b'], ['s'], [DR], 4, inv=['UnitDet'])
    beh += model(ck, ['add', 'line'], ['a'], ['s', 't'], [DRI], 5, lines=4, elems=4)
    beh += model(ck, ['add', 'line', 'sub'], ['a', 'b', 'c', 'd'], ['s', 't', 'u'], [DR, QU, MK], 14, lines=6, elems=10,
                 simulate=20000 if ck.thorough else 1200)

    def can(e):
        f = e['obs']['lines'][0]['flat']
        if len(f) < 2 or f[0] == f[1]:
            return False
        f[0], f[1] = f[1], f[0]
        return True
    settle(ck, beh, can, 5000, long(ck, ['add', 'line', 'sub'], [DR, QU, MK], 100) +
           long(ck, ['add'], [DR, QU, MK], 200, n=1, names=150, lines=1))


def B02(ck):
    ed = [P(l=(1, 5, 1)), P(l=(1, 0, 1)), P(l=(1, -9, 4), k1=(1, 1, 1))]
    beh = model(ck, ['add', 'line', 'editname', 'set'], ['a', 'b'], ['s'], [DR, BACK], 4, edits=ed[:1], elems=2, lines=2)
    beh += model(ck, ['add', 'line', 'editidx', 'del', 'update', 'refuse'], ['a'], ['s'], [DR], 4, edits=ed[1:], keys=['l'], elems=2, lines=2)
    beh += model(ck, ['add', 'line', 'sub', 'editname', 'editidx', 'set', 'update', 'del', 'copy'], ['a', 'b', 'c'], ['s', 't'],
                 [DR, QU, MK, DRI, SO, BACK], 12, edits=ed, keys=['l', 'k1'], lines=5, elems=8, simulate=20000 if ck.thorough else 1200)

    def can(e):
        if not e['obs']['elems']:
            return False
        e['obs']['elems'][0]['edge'] = [123, 7, 1]
        return True
    settle(ck, beh, can, 4000, long(ck, ['add', 'line', 'sub', 'set', 'editidx'], [DR, QU, DRI, SO, BACK], 100, ed[:2]))


def B03(ck):
    ed = [P(l=(1, 5, 1)), P(k1=(2, 1, 0)), P(k1=(1, -3, 2), l=(1, 4, 1))]
    none = [P(l=(1, 0, 1)), P(mode=(2, 0, 0)), P(k1=(1, 0, 1), mode=(2, 7, 0))]      # values that count as false
    beh = model(ck, ['add', 'copy', 'set', 'get', 'in', 'setdefault', 'update'], ['a', 'b'], [], [QU], 4, edits=ed[:2], keys=['l'], lines=1, elems=2)
    beh += model(ck, ['add', 'set', 'del', 'pop', 'editname', 'get'], ['a', 'b'], [], [DR], 4, edits=ed[1:], keys=['k1', 'l'], lines=1, elems=2)
    # elements that share a name in a line and its subline
    beh += model(ck, ['add', 'line', 'sub', 'editname', 'editidx'], ['a', 'b'], ['s'], [QU], 5, edits=ed[:1], lines=2, elems=3)
    beh += model(ck, ['add', 'line', 'sub', 'copy', 'set', 'get', 'in', 'setdefault', 'update', 'del', 'pop', 'editname', 'editidx'],
                 ['a', 'b', 'c'], ['s'], [DR, QU, WA, SO], 14, edits=ed + none, keys=['l', 'k1', 'angle', 'mode'], lines=2, elems=4,
                 simulate=20000 if ck.thorough else 1200)

    def can(e):
        if not e['obs']['elems'] or not e['obs']['elems'][0]['pars']:
            return False
        e['obs']['elems'][0]['pars'][0]['v'] = [1, 99, 1]
        return True
    settle(ck, beh, can, 4000, long(ck, ['add', 'copy', 'set', 'get', 'in', 'setdefault', 'update', 'del', 'pop', 'editname', 'editidx'], [DR, QU, WA], 250, ed + none, ['l', 'k1', 'mode']))


def B04(ck):
    sm = [DR, WA]
    sharp = [P(k1=(6, 2 * i, 0), angle=(6, 2 * i + 1, 0)) for i in range(4)] + [P(k1=(6, 8, 0))]
    exact = [T('kquad', k1=(6, i, 0)) for i in range(len(REALS))]
    beh = model(ck, ['add', 'line', 'save', 'load'], ['a', 'b'], ['s'], sm[:1], 5, lines=8, elems=8, fin='load', inv=['RoundTrip'])
    beh += model(ck, ['add', 'line', 'save', 'load'], ['a'], ['s', 't'], sm[1:], 5, lines=9, elems=8, fin='load', inv=['RoundTrip'])
    beh += model(ck, ['add', 'line', 'editname', 'set', 'del', 'save', 'load'], ['a', 'b', 'c', 'd'], ['s', 't', 'u'],
                 [DR, QU, MK, WA, SO], 14, edits=[P(l=(1, 5, 1)), P(k1=(2, 7, 0)), P(mode=(2, 5, 0), l=(1, -1, 3)), P(l=(1, 0, 1), mode=(2, 0, 0))] + sharp, keys=['l', 'k1'],
                 lines=14, elems=24, simulate=20000 if ck.thorough else 1500)
    beh = [b for b in beh if any(e['op'] == 'load' for e in b)]

    def can(e):
        if not e['obs']['elems']:
            return False
        e['obs']['elems'][-1]['type'] = 'other'
        return True
    far = long(ck, ['add', 'line', 'sub'], [DR, QU, WA, SO] + exact, 70) + long(ck, ['add'], [DR, QU, WA, SO], 150, n=1, names=120, lines=1)
    # many sublines in one line
    far += [[x for i in range(1, n + 1) for x in [dict(op='line', l=1, name='m%d' % i), dict(op='add', l=1, name='n%d' % i, type='drift', pars=P(l=(1, i, 1)), sub=1)]]
            for n in (12, 29)]
    settle(ck, beh, can, 4000, [h + [dict(op='save', l=1, f='f1'), dict(op='load', f='f1')] for h in far])


def qd(k1, th, k):
    return T('quadrupole', k1=(1, k1, 1), l=(3, th, k))


def B05(ck):
    x = [BACK, qd(4, 1, 2), qd(-1, 2, 1)]
    y = [DRI, qd(-4, 3, 2), qd(1, 2, 1)]
    e = [P(l=(1, 5, 1))]
    beh = model(ck, ['add', 'line', 'matrix'], ['a', 'b', 'c'], ['s'], x, 4, lines=2, elems=3, fin='matrix', inv=['UnitDet'])
    beh += model(ck, ['add', 'line', 'matrix'], ['a', 'b', 'c'], ['s'], y, 4, lines=2, elems=3, fin='matrix', inv=['UnitDet'])
    beh += model(ck, ['add', 'line', 'matrix', 'editname'], ['a', 'b'], ['s'],
                 [DR, T('drift', l=(4, 1, 0)), T('drift', l=(4, 2, 0)), T('quadrupole', k1=(4, 2, 0), l=(3, 1, 2)), T('quadrupole', k1=(1, 0, 1), l=(1, 3, 4))], 4,
                 edits=e, lines=2, elems=2, fin='matrix')
    more = [P(k1=(1, -1, 1), l=(3, 2, 1)), P(k1=(1, 4, 1), l=(3, 3, 2)), P(l=(1, 7, 2))]
    beh += model(ck, ['add', 'line', 'sub', 'matrix', 'editname', 'set'], ['a', 'b', 'c', 'd'], ['s', 't'], x + [qd(1, 3, 1)], 9, edits=more, lines=4, elems=4,
                 fin='matrix', simulate=12000 if ck.thorough else 900)
    beh += model(ck, ['add', 'line', 'sub', 'matrix', 'editidx', 'set'], ['a', 'b', 'c', 'd'], ['s', 't'], y + [qd(-1, 1, 1)], 9,
                 edits=[P(k1=(1, 1, 1), l=(3, 2, 1)), P(k1=(1, -4, 1), l=(3, 1, 2))], lines=4, elems=4, fin='matrix', simulate=12000 if ck.thorough else 900)

    def can(ev):
        if ev['op'] != 'matrix' or not ev['m'] or len(ev['obs']['lines'][ev['l'] - 1]['flat']) < 2:
            return False
        for m in ev['m']:
            m[0][1] = [1234, 7, 1]
        return True
    settle(ck, beh, can, 2200, long(ck, ['add', 'line', 'sub', 'matrix'], [DR, DRI, BACK], 90, fin='matrix'))
