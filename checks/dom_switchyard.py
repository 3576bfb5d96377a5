"""W01-W04: the particle switchyard."""
import copy
import itertools
import os
import random
import struct

import numpy as np

import vf

C = 299792458.0


def tla_set(xs):
    return '{%s}' % ', '.join(xs)


def shape(*files):
    out = []
    for f in files:
        if f[0] == 'e':
            out.append('[fmt |-> "elegant", n |-> %d, q |-> %d]' % f[1:])
        else:
            out.append('[fmt |-> "opal", steps |-> <<%s>>]' % ', '.join('[s |-> %d, n |-> %d, q |-> %d]' % s for s in f[1]))
    return '<<%s>>' % ', '.join(out)


# ------------------------------------------------------------------------------------------------- concrete beams
def rows(g, n, dens=(1, 2, 3, 4, 5, 8, 10)):
    out = []
    for _ in range(n):
        r = []
        for c in range(6):
            if c == 5:
                r.append(g.choice([(1, 1), (3, 2), (2, 1), (5, 2), (7, 1), (40, 1), (250, 1), (9, 4)]))
            elif c == 4:
                r.append((g.randint(-200, 200), g.choice([1, 2, 4])))
            else:
                r.append((g.choice([-1, 1]) * g.randint(0, 60), g.choice(dens)))
        out.append(r)
    # particles at the same place, beams in order, beams of one value
    k = g.random()
    if k < .2 and n > 1:
        for i in g.sample(range(1, n), min(n - 1, 2)):
            out[i] = list(out[g.randrange(i)])
    elif k < .3:
        out = [list(out[0]) for _ in out]
    elif k < .4:
        out.sort(key=lambda r: r[4][0] / r[4][1])
    elif k < .5:
        c = g.randrange(5)
        for r in out:
            r[c] = (0, 1) if g.random() < .5 else out[0][c]
    return out


def red(x):
    from fractions import Fraction
    f = Fraction(*x)
    return [f.numerator, f.denominator]


def charge(g, q):
    if not q:
        return []
    return g.choice([(0, 1), (1, 1), (-5, 2), (7, 3), (100, 1), (-1, 10)]) if g.random() < .85 else (0, 1)


class Beam:
    """Concrete sources of one behaviour."""

    def __init__(self, sh, g, rep=1):
        self.src = []
        self.rep = rep      # the rows of every beam, over and over: beams of any size for a small model
        self.g = g
        for f in sh:
            if f['fmt'] == 'elegant':
                self.src.append(dict(fmt='elegant', rows=rows(g, f['n']), q=charge(g, f['q'])))
            else:
                self.src.append(dict(fmt='opal', steps=[dict(s=s['s'], rows=rows(g, s['n']), q=charge(g, s['q'])) for s in f['steps']]))
        # magnitudes: positions, momenta/angles, time, charge
        self.sx = g.choice([1.0, 1e-6, 1e3, 1e-3])
        self.su = g.choice([1.0, 1e-6, 1e-3])
        self.st = g.choice([1.0, 1e-6, 1e2])
        self.sq = g.choice([1.0, 1e-12, 1e-9])

    def header(self):
        out = []
        for f in self.src:
            if f['fmt'] == 'elegant':
                out.append(dict(fmt='elegant', rows=[[red(v) for v in r] for r in f['rows']], q=red(f['q']) if f['q'] else []))
            else:
                out.append(dict(fmt='opal', steps=[dict(s=s['s'], rows=[[red(v) for v in r] for r in s['rows']],
                                                        q=red(s['q']) if s['q'] else []) for s in f['steps']]))
        return out

    def scale(self):
        return [self.sx, self.su, self.sx, self.su, self.st, 1.0]

    def floats(self, rs, elegant):
        s = self.scale()
        a = np.array([[v[0] / v[1] * s[k] for k, v in enumerate(r)] for r in rs]).reshape(-1, 6)
        if elegant:
            a[:, 4] /= C
        return np.tile(a, (self.rep, 1))

    def unscale(self, a):
        a = np.asarray(a, dtype=float)
        if a.ndim != 2:
            return [[[0, 1, 0]] * 6]
        if self.rep > 1:
            n = self.fold(len(a))
            if n < 0 or not np.allclose(a.reshape(self.rep, n, -1), a[:n], rtol=1e-13, atol=0):
                return [[[0, 1, 0]] * 6]
            a = a[:n]
        s = self.scale()
        return [[vf.rat(v / s[k], tol=1e-12) if k < 6 else [0, 1, 0] for k, v in enumerate(r)] for r in a]

    def fold(self, n):
        return n // self.rep if n % self.rep == 0 else -3

    def files(self, d):
        self.paths = []
        for i, f in enumerate(self.src):
            p = os.path.join(d, 'src%d.%s' % (i, 'bun' if f['fmt'] == 'elegant' else 'h5'))
            (self.elegant if f['fmt'] == 'elegant' else self.opal)(p, f)
            self.paths.append(p)

    def elegant(self, p, f):
        g = self.g
        cols = {k: v for k, v in zip(['x', 'xp', 'y', 'yp', 't', 'p'], self.floats(f['rows'], True).T)}
        for e in ('dt', 'particleID', 'xpp')[:g.randint(0, 3)]:
            cols[e] = np.array([g.random() for _ in cols['x']])
        order = list(cols)
        g.shuffle(order)
        pars = [('pCentral', 5.5), ('Particles', float(len(cols['x'])))][:g.randint(0, 2)]
        if f['q']:
            pars.insert(g.randint(0, len(pars)), ('Charge', f['q'][0] / f['q'][1] * self.sq))
        binary = g.random() < .5
        h = 'SDDS1\n' + ('!# little-endian\n' if binary else '')
        h += ''.join('&parameter name=%s, type=double, &end\n' % n for n, _ in pars)
        h += ''.join('&column name=%s, type=double, units=m, &end\n' % n for n in order)
        h += '&data mode=%s, &end\n' % ('binary' if binary else 'ascii')
        with open(p, 'wb') as o:
            o.write(h.encode())
            if binary:
                o.write(struct.pack('<i', len(cols['x'])))
                o.write(b''.join(struct.pack('<d', v) for _, v in pars))
                for k in range(len(cols['x'])):
                    o.write(b''.join(struct.pack('<d', cols[n][k]) for n in order))
            else:
                o.write(''.join('%r\n' % v for _, v in pars).encode())
                o.write(b'%d\n' % len(cols['x']))
                for k in range(len(cols['x'])):
                    o.write((' '.join('%r' % float(cols[n][k]) for n in order) + '\n').encode())

    def opal(self, p, f):
        import h5py
        g = self.g
        with h5py.File(p, 'w') as o:
            steps = list(f['steps'])
            g.shuffle(steps)
            for s in steps:
                gr = o.create_group('Step#%d' % s['s'])
                a = self.floats(s['rows'], False)
                cs = list(enumerate(['x', 'px', 'y', 'py', 'z', 'pz']))
                g.shuffle(cs)
                for k, n in cs:
                    gr.create_dataset(n, data=a[:, k])
                gr.create_dataset('id', data=np.arange(len(a))[::-1])
                if s['q']:
                    q = s['q'][0] / s['q'][1] * self.sq
                    for n in g.choice([['CHARGE'], ['TotalCharge'], ['CHARGE', 'TotalCharge']]):
                        gr.attrs[n] = np.array([q]) if g.random() < .4 else q
                gr.attrs['SPOS'] = 3.25
            if g.random() < .3:
                o.create_group('Info')


def num(v):
    a = np.asarray(v, dtype=float).reshape(-1)
    return float(a[0]) if a.size == 1 else float('nan')


class Driver:
    def __init__(self, d, beam):
        from rsbeams.rsdata import switchyard
        self.d, self.b, self.sw = d, beam, switchyard.Switchyard()

    def registry(self):
        out = []
        for n, s in self.sw.species.items():
            try:
                a = np.asarray(s.coordinates, dtype=float)
                acc = int(s.macroparticle_count == a.shape[0] and all(
                    np.array_equal(v, a[:, k]) for k, v in enumerate([s.x, s.ux, s.y, s.uy, s.ct, s.pt]))
                          and num(s.charge) == -1 and abs(num(s.mass) / 511e3 - 1) < 1e-3)
                out.append(dict(name=n, rows=self.b.unscale(a), q=vf.rat(num(s.total_charge) / self.b.sq), acc=acc))
            except Exception:
                out.append(dict(name=n, rows=[], q=[0, 1, 0], acc=0))
        return out

    def path(self, p):
        if p['kind'] == 'src':
            return self.b.paths[p['i'] - 1]
        return os.path.join(self.d, p['t'] if p['kind'] == 'tgt' else 'absent')

    def read(self, e):
        k = {} if e['step'] == -1 else dict(step_number=e['step'])
        if e['name'] or self.b.g.random() < .5:
            k['species_name'] = e['name'] or None
        return vf.call(self.sw.read, self.path(e['path']), e['fmt'], **k)

    def write(self, e):
        t = os.path.join(self.d, e['tgt'])
        k = {}
        if e['name'] or self.b.g.random() < .5:
            k['species_name'] = e['name'] or None
        ver = None
        if e['fmt'] == 'genesis' and self.b.g.random() < .5:
            ver = k['version'] = self.b.g.choice(['0.1', '2.0', '1.0'])
        st, v = vf.call(self.sw.write, t, e['fmt'], **k)
        r = dict(ret=0, file=dict(n=-1, rows=[], q=[0, 1, 0]))
        if st == 'ok':
            r['ret'] = int(v == t)
            st2, f = vf.call(self.parse, t, e['fmt'], ver)
            if st2 == 'ok':
                r['file'] = f
        return st, r

    def parse(self, t, fmt, ver):
        if fmt == 'elegant':
            from rsbeams.rsdata.SDDS import readSDDS
            rd = readSDDS(t)
            rd.read()
            c = np.asarray(rd.columns).reshape(-1)
            a = np.array([c[k] for k in ('x', 'xp', 'y', 'yp', 't', 'p')], dtype=float).T
            a[:, 4] *= C
            return dict(n=self.b.fold(len(a)), rows=self.b.unscale(a), q=vf.rat(num(rd.parameters['Charge']) / self.b.sq))
        L = open(t).read().splitlines()
        if fmt == 'opal':
            return dict(n=self.b.fold(int(L[0])), rows=self.b.unscale([[float(x) for x in l.split()] for l in L[1:]]), q=[0, 1, 1])
        h = {}
        k = 0
        while L[k].startswith('?'):
            key, _, val = L[k][1:].strip().partition(' ')
            h[key] = val.strip().lstrip('=').strip()
            k += 1
        cols = h['COLUMNS'].split()
        raw = [dict(zip(cols, map(float, l.split()))) for l in L[k:]]
        if any(len(l.split()) != len(cols) for l in L[k:]) or (ver or '2.0') != h['VERSION']:
            return dict(n=-2, rows=[], q=[0, 1, 0])
        a = [[r['X'], r['PX'], r['Y'], r['PY'], r['T'] * C, r['P']] for r in raw]
        return dict(n=self.b.fold(int(h['SIZE'])), rows=self.b.unscale(a), q=vf.rat(float(h['CHARGE']) / self.b.sq))


def run(job):
    b, seed = job
    g = random.Random(seed)
    with vf.scratch() as d:
        beam = Beam(b['shape'], g, b.get('rep', 1))
        beam.files(d)
        dr = Driver(d, beam)
        ev = []
        for op in b['h']:
            e = dict(op)
            if op['op'] == 'read':
                st, v = dr.read(op)
                e['status'] = st
            else:
                e['status'], r = dr.write(op)
                e.update(r)
            e['reg'] = dr.registry()
            ev.append(e)
        return dict(src=beam.header(), ev=ev, _seed=seed, _scale=[beam.sx, beam.su, beam.st, beam.sq])


INV = ['Unique', 'RoundTrip', 'OnePerParticle', 'Emit']
q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)


def model(ck, shapes, names, rf, wf, steps, depth, bad, simulate=None):
    return ck.model('MC_Switchyard', dict(Shapes=tla_set(shapes), Names_=q(names), ReadFmts=q(rf), WriteFmts=q(wf),
                                          Steps='{%s}' % ', '.join(map(str, steps)), Depth=depth, Bad='TRUE' if bad else 'FALSE', Rand='TRUE' if simulate else 'FALSE'),
                    ['Unique', 'Emit'] if simulate else INV, ['Stable'], simulate=simulate, depth=depth + 2 if simulate else None)


def jobs_of(ck, beh, rep=1):
    return [(b, ck.seed * 1000003 + i * 17 + r) for i, b in enumerate(beh) for r in range(rep)]


def settle(ck, jobs, canary):
    traces = vf.pmap(run, jobs)
    can = []
    for t in traces:
        if all(e['status'] == 'ok' for e in t['ev']) and t['ev'][-1]['reg'] and t['ev'][-1]['reg'][0]['rows']:
            c = copy.deepcopy(t)
            if canary(c):
                can.append(c)
                break
    ck.validate('Trace_Switchyard', traces, can)


def bump(rows_, k):
    if not rows_ or not rows_[0][k][2]:
        return False
    rows_[0][k] = [rows_[0][k][0] + rows_[0][k][1], rows_[0][k][1], 1]
    return True


def many(beh, k):
    """The first k behaviours with as many particles as beams have."""
    beh.sort(key=lambda b: sum(e['op'] == 'write' for e in b['h']), reverse=True)
    return [dict(b, rep=4001) for b in beh[:k]]


def W01(ck):
    sh = [shape(('e', n, c)) for n in (1, 2, 3, 5) for c in (0, 1)]
    op = [shape(('o', [(3, n, 1)])) for n in (1, 2, 4)]
    beh = model(ck, sh, ['', 'a'], ['elegant'], ['elegant'], [], 2, False)
    # read, write, read back under another name, write again
    beh += model(ck, sh[:4] if not ck.thorough else sh, ['', 'a'], ['elegant'], ['elegant'], [], 4, False)
    beh += model(ck, op, ['', 'b'], ['opal', 'elegant'], ['elegant'], [], 3, False)
    big = [shape(('e', n, 1)) for n in (40, 97)]
    beh += model(ck, big, [''], ['elegant'], ['elegant'], [], 2, False) * (10 if ck.thorough else 3)
    beh += model(ck, [shape(('e', ck.rng.randint(1025, 1300), 1))], [''], ['elegant'], ['elegant'], [], 2, False)
    beh += many(model(ck, [shape(('e', 37, 1))], [''], ['elegant'], ['elegant'], [], 3, False), 3)
    jobs = jobs_of(ck, beh, 3 if ck.thorough else 1)
    keep = [j for j in jobs if len(j[0]['h']) <= 3] + ck.rng.sample([j for j in jobs if len(j[0]['h']) > 3],
                                                                    min(len([j for j in jobs if len(j[0]['h']) > 3]), 20000 if ck.thorough else 1200))
    settle(ck, keep, lambda t: bump(t['ev'][-1]['reg'][0]['rows'], 1))


def W02(ck):
    A = shape(('e', 2, 1), ('e', 1, 0))
    B = shape(('e', 1, 1), ('o', [(1, 2, 1)]))
    beh = model(ck, [A, B], ['', 'a'], ['elegant', 'opal', 'genesis', 'nosuch'], ['elegant', 'genesis', 'nosuch'], [], 2, True)
    beh += model(ck, [A], ['', 'a', 'b'], ['elegant'], ['opal'], [], 3, False)
    E = shape(('e', 2, 1), ('e', 1, 0), ('o', [(0, 1, 1), (2, 2, 1)]), ('o', [(7, 2, 0)]))
    sim = model(ck, [A, B, E], ['', 'a', 'b', 'species_0'], ['elegant', 'opal', 'genesis', 'nosuch'],
                ['elegant', 'genesis', 'opal', 'nosuch'], [0, 2], 8, True, simulate=30000 if ck.thorough else 3000)
    sim += model(ck, [A, E], ['', 'a', 'b', 'c'], ['elegant', 'opal'], ['elegant', 'genesis', 'opal'], [2], 9, False,
                 simulate=30000 if ck.thorough else 3000)
    if not ck.thorough and len(beh) > 2500:
        beh = ck.rng.sample(beh, 2500)

    def can(t):
        t['ev'][-1]['reg'][0]['name'] = 'other'
        return True
    settle(ck, jobs_of(ck, beh + sim), can)


def W03(ck):
    pool = [0, 1, 2, 9, 10, 11, 100, 99]
    sets = [s for k in (1, 2, 3) for s in itertools.combinations(pool, k)]
    if not ck.thorough:
        sets = [s for s in sets if len(s) < 3] + ck.rng.sample([s for s in sets if len(s) == 3], 16)
    shapes = [shape(('o', [(s, 1 + (i + k) % 3, 1) for i, s in enumerate(st)])) for k, st in enumerate(sets)]
    beh = model(ck, shapes, [''], ['opal'], [], pool + [5], 1, True)
    beh += model(ck, [shape(('o', [(1, 3, 0)])), shape(('o', [(1, 3, 0), (2, 1, 1)]))], ['', 'a'], ['opal'], [], [1, 2], 2, True)
    beh += model(ck, [shape(('o', [(8, 60, 1), (12, 120, 1), (100, 33, 1)]))], [''], ['opal'], [], [8, 12], 1, False) * 4
    beh += model(ck, [shape(('o', [(8, 2, 1), (12, ck.rng.randint(1025, 1300), 1)]))], [''], ['opal'], [], [8], 1, False)
    beh += many(model(ck, [shape(('o', [(8, 2, 1), (12, 31, 1)]))], [''], ['opal'], [], [8], 1, False), 2)
    settle(ck, jobs_of(ck, beh, 8 if ck.thorough else 2), lambda t: bump(t['ev'][-1]['reg'][0]['rows'], 4))


def W04(ck):
    sh = [shape(('e', n, c)) for n in (1, 2, 3, 4, 5) for c in (0, 1)] + [shape(('o', [(2, n, 1)])) for n in (1, 2, 4)]
    beh = model(ck, sh, ['', 'a'], ['elegant', 'opal'], ['opal', 'genesis'], [], 2, False)
    two = [shape(('e', 3, 1), ('o', [(2, 2, 1)]))]
    beh += model(ck, two, ['', 'a'], ['elegant', 'opal'], ['opal', 'genesis'], [], 4 if ck.thorough else 3, False)
    beh += model(ck, [shape(('e', n, 1)) for n in (50, 110)], [''], ['elegant'], ['opal', 'genesis'], [], 2, False) * (12 if ck.thorough else 3)
    beh += model(ck, [shape(('e', 1200, 1))], [''], ['elegant'], ['opal', 'genesis'], [], 2, False)
    beh += many(model(ck, [shape(('e', 29, 1))], [''], ['elegant'], ['opal', 'genesis'], [], 2, False), 2)
    jobs = jobs_of(ck, beh, 6 if ck.thorough else 3)

    def can(t):
        e = t['ev'][-1]
        return e['op'] == 'write' and bump(e['file']['rows'], 3)
    settle(ck, jobs, can)
