"""U01 U02: bunch settings and generated particles."""
import copy
import io
import math
import random
import re
import contextlib

import vf

U = 1e-6        # emittances are multiples of this (drawn for every behaviour)
V = 1.          # aperture parameters are multiples of this
NUM = ['emitx', 'emity', 'betax', 'alphax', 'betay', 'alphay', 'stdz', 'dpop']
INS = ['t', 'c', 'cutoff']


def q(v):
    return v[0] / v[1]


def rat(v):
    return vf.rat(v, 20000, 1e-8)


def unit(k):
    return U if k.startswith('emit') else V if k == 'c' else 1.


def value(k, v):
    return v if k in ('dist', 'quiet') else q(v) * unit(k)


def potential(x, y, t, c):
    """Danilov-Nagaitsev elliptic potential (PRSTAB 13, 084002, eq. 32) in normalized coordinates."""
    import numpy as np
    r, s = np.hypot(x / c + 1, y / c), np.hypot(x / c - 1, y / c)
    xi, eta = (r + s) / 2, (r - s) / 2
    xi, eta = np.maximum(xi, 1.), np.clip(eta, -1., 1.)
    f = xi * np.sqrt(xi ** 2 - 1) * np.arccosh(xi) - eta * np.sqrt(1 - eta ** 2) * np.arcsin(eta)
    return (x * x + y * y) / 2 - t * c * c * f / (xi ** 2 - eta ** 2)


def runs(ids):
    out = []
    for v in ids:
        v = int(v) if v == int(v) else -1
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        elif len(out) < 50:
            out.append([v, v])
    return out


def run(job):
    h, seed = job
    import numpy as np
    from rsbeams.rsptcls import bunch as mod
    global U, V
    g = random.Random(seed)
    U = g.choice([1e-6, 1e-6, 1e-4, 1e-3, 1e-9, 1., 1e4] if h[0].get('cls') == 'nonlinear' else [1e-6, 1e-9, 1e-3, 1.])
    # bunches fill the aperture, or more than that
    V = math.sqrt(U / 1e-6) if not 1e-6 <= U <= 1e-3 or g.random() < .5 else 1.
    b, twin, cls, ev = None, None, None, []
    own = g.choice([g.randrange(1, 10 ** 6), 0, 2.5]) if g.random() < .5 else None

    def reseed(n):
        random.seed(n)
        np.random.seed(n % 2 ** 32)

    def kwargs(e):
        return {x['k']: value(x['k'], x['v']) for x in e['kw']}

    def printed():
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            b.print_Twiss()
        return {k: rat(re.search(r'%s\s*:\s*(\S+)' % k, s.getvalue()).group(1)) for k in ('betax', 'betay', 'alphax', 'alphay', 'gammax', 'gammay')}

    def obs():
        p = np.asarray(b.particles)
        o = {k: rat(getattr(b, k) / unit(k)) for k in NUM + (INS if cls == 'nonlinear' else [])}
        o.update(quiet=bool(b.quiet), dist=b.dist)
        return dict(get=o, twiss=printed(), shape=list(p.shape), ids=runs(p[:, 6]) if p.shape[1] == 7 else [])

    def build(kw):
        f = mod.StandardBunch if cls == 'standard' else mod.NonlinearBunch
        kw = dict(kw)
        if own is not None:
            kw['seed'] = own
        if U != 1e-6:       # the default is one micrometre
            kw.setdefault('emitx', U)
            kw.setdefault('emity', U)
        if V != 1. and cls == 'nonlinear':
            kw.setdefault('c', .01 * V)
        d = dict(dist='Gaussian' if cls == 'standard' else 'KV')
        if kw.get('dist') == d['dist'] and g.random() < .5:
            del kw['dist']
        return f(npart, **kw)

    def measure(e):
        p = np.array(b.particles, float)[:, :4]
        n = p.shape[0]
        e['total'] = rat(b.emit / U)
        xh, yh = p[:, 0] / math.sqrt(b.betax), p[:, 2] / math.sqrt(b.betay)
        px = math.sqrt(b.betax) * p[:, 1] + b.alphax * xh
        py = math.sqrt(b.betay) * p[:, 3] + b.alphay * yh
        pot = potential(xh, yh, b.t, b.c) if cls == 'nonlinear' else (xh ** 2 + yh ** 2) / 2
        hh = (pot + (px ** 2 + py ** 2) / 2) / b.emit
        # the invariant as the bunch reports it, for all particles and for one
        own = np.asarray(b.compute_Hamiltonian(xh, px, yh, py), float) / b.emit
        one = float(b.compute_Hamiltonian(xh[0], px[0], yh[0], py[0])) / b.emit
        e['own'] = int(own.shape == hh.shape and np.abs(own - hh).max() <= 1e-7 * max(1., np.abs(hh).max()) and abs(one - hh[0]) <= 1e-7 * max(1., abs(hh[0])))
        e.update(hmin=vf.rat(hh.min(), 200, 1e-7), hmax=vf.rat(hh.max(), 200, 1e-7 if b.dist == 'KV' else 1.), pos=int(hh.min() > 0))
        if b.dist != 'KV':      # rounded down, never below an edge it is beyond
            top = (b.cutoff if b.dist == 'Gaussian' else 1.)
            e['hmax'] = [int(math.floor(hh.max() * 1000)), 1000, 1] if hh.max() <= top * (1 + 1e-9) else [int(math.ceil(hh.max() * 1000)) + 1, 1000, 1]
        e['fit'] = n >= (16 if not b.quiet else 48)
        e['form'] = []
        if e['fit']:
            m = np.stack([p[:, 0] ** 2, p[:, 0] * p[:, 1], p[:, 1] ** 2, p[:, 2] ** 2, p[:, 2] * p[:, 3], p[:, 3] ** 2], axis=1) / U
            k = np.abs(m).max(axis=0)
            k[k == 0] = 1.
            good = bool(np.isfinite(m).all())
            c = np.linalg.lstsq(m / k, np.ones(n), rcond=None)[0] if good else np.zeros(6)
            good = good and np.abs((m / k) @ c - 1).max() < 1e-8
            e['form'] = [vf.rat(x, 20000, 1e-6) if good else [0, 1, 0] for x in c / k]
        s = np.abs(p).max(axis=0)
        s[s == 0] = 1.
        e['sum'] = [vf.rat(x, 1000, 1e-9) for x in p.sum(axis=0) / s / n]

    npart = 0
    for e in h:
        e = copy.deepcopy(e)
        op = e['op']
        kw = kwargs(e)
        if op == 'new':
            cls, npart = e['cls'], e['npart']
            st, v = vf.call(lambda: build(kw))
            if st == 'ok':
                b = v
        elif op == 'set':
            (k, val), = kw.items()
            st, v = vf.call(lambda: setattr(b, k, val))
        else:
            e.update(same=1, other=1, scale=[], total=[0, 1, 0], hmin=[0, 1, 0], hmax=[0, 1, 0], pos=0, own=1, fit=False, form=[], sum=[])
            cols, rest = (slice(0, 4), [4, 5, 6]) if op == 'transverse' else (slice(4, 6), [0, 1, 2, 3, 6])
            before = np.array(b.particles, float)
            n = g.randrange(2 ** 31)
            reseed(n)
            st, v = vf.call(lambda: (b.set_transverse_coordinates if op == 'transverse' else b.set_longitudinal_coordinates)(**kw))
            if st == 'ok':
                after = np.array(b.particles, float)
                e['other'] = int(after.shape == before.shape and np.array_equal(after[:, rest], before[:, rest]))
                # the same random numbers with unit settings
                if op == 'longitudinal' or (cls == 'standard' and b.dist == 'Gaussian'):
                    ref = mod.StandardBunch(npart, emitx=1., emity=1., dpop=1.)
                    reseed(n)
                    (ref.set_transverse_coordinates if op == 'transverse' else ref.set_longitudinal_coordinates)()
                    r, a = np.array(ref.particles, float)[:, cols], after[:, cols]
                    sc = U if op == 'transverse' else 1.
                    ratio = (a / r) ** 2 * np.where(a * r >= 0, 1., -1.) / sc
                    e['scale'] = [rat(x[0]) if np.ptp(x) <= 1e-9 * max(1., abs(x[0])) else [0, 1, 0] for x in ratio.T]
                else:
                    s2, v2 = vf.call(lambda: measure(e))
                    if s2 != 'ok':
                        st, v = 'unmeasurable', v2
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        s2, o = vf.call(obs)
        if s2 != 'ok':
            e['status'], o = 'unreadable-' + str(o), dict(get={}, twiss={}, shape=[], ids=[])
        e['obs'] = o
        ev.append(e)
        if b is None:
            break
    # a second bunch made with the same seed and the same calls
    if own is not None and ev and any(e['op'] in ('transverse', 'longitudinal') and e['status'] == 'ok' for e in ev):
        def again():
            x = build(kwargs(ev[0]))
            for e in h[1:]:
                k = kwargs(e)
                if e['op'] == 'set':
                    vf.call(lambda: setattr(x, *next(iter(k.items()))))
                else:
                    vf.call(lambda: (x.set_transverse_coordinates if e['op'] == 'transverse' else x.set_longitudinal_coordinates)(**k))
            return np.array(x.particles, float)
        reseed(g.randrange(2 ** 31))
        s1, one = vf.call(again)
        reseed(g.randrange(2 ** 31))
        s2, two = vf.call(again)
        e = [e for e in ev if e['op'] in ('transverse', 'longitudinal') and e['status'] == 'ok'][-1]
        e['same'] = int(s1 == s2 == 'ok' and np.array_equal(one, two))
    return dict(ev=ev, _seed=seed)


def rset(xs):
    return '{%s}' % ', '.join('<<%d, %d>>' % x for x in xs)


BS = [(1, 1), (5, 4), (1, 2), (3, 1), (10, 1)]
AS = [(0, 1), (1, 2), (-3, 4), (2, 1), (-1, 1)]
ES = [(1, 1), (2, 1), (1, 2), (3, 4)]
SS = [(1, 1), (0, 1), (1, 2), (3, 1)]
TS = [(0, 1), (1, 10), (2, 5), (1, 4), (1, 2000), (1, 10000)]


def model(ck, mode, depth, classes=('standard', 'nonlinear'), dists=('KV', 'Gaussian', 'waterbag'), bs=BS, as_=AS, es=ES, ss=SS, ts=TS, ns=(4,), simulate=None):
    return [b['h'] for b in ck.model('MC_Bunch', dict(
        Classes='{%s}' % ', '.join('"%s"' % c for c in classes), Dists='{%s}' % ', '.join('"%s"' % c for c in dists), Bs=rset(bs), As=rset(as_), Es=rset(es), Ss=rset(ss), Ts=rset(ts),
        Ns='{%s}' % ', '.join(map(str, ns)), Depth=depth, Mode='"%s"' % mode, Rand='TRUE' if simulate else 'FALSE'),
        ['Emit'] if simulate else ['Betas', 'Shared', 'Emit'], [] if simulate else ['Planes'], simulate=simulate, depth=depth + 2 if simulate else None)]


def validate(ck, hs, cap):
    seen, un = set(), []
    for x in hs:
        if repr(x) not in seen:
            seen.add(repr(x))
            un.append(x)
    if len(un) > cap:
        un = ck.rng.sample(un, cap)
    traces = vf.pmap(run, [(x, ck.seed * 1000003 + i) for i, x in enumerate(un)])
    can = []
    for t in traces:
        e = t['ev'][-1]
        if e['status'] == 'ok' and e['obs']['get']:
            c = copy.deepcopy(t)
            c['ev'][-1]['obs']['get']['alphay'] = [77, 1301, 1]
            can.append(c)
            break
    for t in traces:
        e = t['ev'][-1]
        if e['status'] == 'ok' and e['op'] == 'transverse' and not e['scale'] and e['obs']['get']['dist'] == 'KV':
            c = copy.deepcopy(t)
            c['ev'][-1]['hmax'] = [101, 100, 1]
            can.append(c)
            break
    ck.extra['bunches_generated'] = sum(e['op'] in ('transverse', 'longitudinal') for t in traces for e in t['ev'])
    ck.extra['settings_read'] = sum(len(e['obs']['get']) for t in traces for e in t['ev'])
    ck.validate('Trace_Bunch', traces, can)


def U01(ck):
    big = ck.thorough
    hs = model(ck, 'settings', 3, bs=BS[1:3], as_=AS[1:3], es=ES[1:3], ss=SS[2:], ts=TS[2:])
    if big:
        hs += model(ck, 'settings', 4, bs=BS[1:3], as_=AS[1:3], es=ES[1:2], ss=SS[2:3], ts=TS[2:3])
    hs += model(ck, 'settings', 7, simulate=15000 if big else 800)
    hs += model(ck, 'make', 6, ns=(4, 8), simulate=15000 if big else 400)
    validate(ck, hs, 60000 if big else 6000)


def U02(ck):
    big = ck.thorough
    hs = model(ck, 'make', 5, ns=(24, 48, 7, 30), simulate=20000 if big else 900)
    hs += model(ck, 'make', 4, classes=('nonlinear',), ns=(48, 64), simulate=20000 if big else 500)
    # no emittance in one plane or both; many particles
    hs += model(ck, 'make', 4, classes=('standard',), dists=('Gaussian',), es=[(0, 1), (0, 1), (1, 2)], ns=(9,), simulate=4000 if big else 150)
    hs += model(ck, 'make', 3, classes=('standard',), dists=('Gaussian',), ns=(70001,), simulate=20 if big else 4)[:30 if big else 5]
    hs += model(ck, 'make', 4, classes=('standard',), dists=('KV',), ns=(48, 25), simulate=10000 if big else 300)
    validate(ck, hs, 120000 if big else 6500)
