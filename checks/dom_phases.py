"""P01: phase advance and tune."""
import copy
import math
import random

import vf


def q(v):
    return v[0] / v[1]


def run(job):
    h, seed = job
    import numpy as np
    from rsbeams.rsptcls import phases as mod
    g = random.Random(seed)
    ev, s = [], None
    for e in h:
        e = copy.deepcopy(e)
        if e['op'] == 'start':
            s = dict(a=q(e['a']), b=q(e['b']), z=[q(v) for v in e['z']])
            s['first'] = list(s['z'])
            e['status'] = 'ok'
        elif e['op'] == 'turn':
            a, b = s['a'], s['b']
            co, si = q(e['r'][0]), q(e['r'][1])
            x, p = s['z']
            z = [(co + a * si) * x + b * si * p, -(1 + a * a) / b * si * x + (co - a * si) * p]
            scale = g.choice([1., 1e-6, 37.])

            def norm(v):
                v = [scale * v[0], scale * (a * v[0] + b * v[1])]
                return g.choice([list, tuple, np.array])(v)

            p0, p1, p2 = norm(s['first']), norm(s['z']), norm(z)
            keep = [list(v) for v in (p0, p1, p2)]

            def angles():
                f = mod.phase_advance
                cw = {} if g.random() < .5 else dict(clockwise=True)
                return [f(p1, p2, **cw), f(p0, p2, **cw), f(p2, p1, **cw), f(p2, p1, clockwise=False), f(p1, p2, clockwise=False)]

            st, v = vf.call(angles)
            if st == 'ok':
                st, v = vf.call(lambda: [float(k) for k in v])
            if st != 'ok':
                v = [math.nan] * 5
            cs = [[vf.rat(math.cos(k), 20000, 1e-11), vf.rat(math.sin(k), 20000, 1e-11)] if math.isfinite(k) else [[0, 1, 0]] * 2 for k in v]
            e.update(step=cs[0], total=cs[1], back=cs[2], ccw=cs[3], other=cs[4], ranged=int(all(-1e-12 <= k <= 2 * math.pi + 1e-12 for k in v)),
                     kept=int([list(k) for k in (p0, p1, p2)] == keep), status=st)
            s['z'] = z
        else:
            n = e['n']
            ti = g.choice([1, 1, 0, 3])
            after = g.choice([0, 0, 5])
            if e['op'] == 'tune':
                ls = [(l['j'] / n, l['a'] * (-1 if g.random() < .3 else 1), 0. if l['j'] == 0 else g.choice([0., math.pi]) if 2 * l['j'] == n else g.uniform(0, 2 * math.pi))
                      for l in e['ls']]
            else:
                ls = [(e['k'] / (8. * n), 1., g.uniform(0, 2 * math.pi))]
            k = np.arange(n)
            x = sum(a * np.cos(2 * math.pi * f * k + ph) for f, a, ph in ls) * g.choice([1., 1e-5])
            junk = lambda m: np.array([g.choice([50., -70., 30.]) for _ in range(m)])
            full = np.concatenate([junk(ti), x, junk(after)])
            kw = {}
            if ti != 1 or g.random() < .3:
                kw['t_i'] = ti
            if after:
                kw['t_f'] = ti + n if g.random() < .6 else -after
            elif g.random() < .3:
                kw['t_f'] = len(full)
            arg = g.choice([full, full, full.tolist(), full.reshape(-1, 1)])
            st, v = vf.call(lambda: mod.tune_fft(arg, **kw))
            e.update(status=st, q=vf.rat(v, 10000, 1e-12) if st == 'ok' else [0, 1, 0], kept=int(np.array_equal(np.ravel(np.asarray(arg)), full)))
        if e['status'] != 'ok':
            e['status'] += '-' + str(v)
        ev.append(e)
    return dict(ev=ev)


def P01(ck):
    rs = '{<<R(3, 5), R(4, 5)>>, <<R(3, 5), R(-4, 5)>>, <<R(-4, 5), R(3, 5)>>, <<R(0, 1), R(1, 1)>>, <<R(-1, 1), R(0, 1)>>, <<R(0, 1), R(-1, 1)>>, <<R(1, 1), R(0, 1)>>, <<R(-3, 5), R(-4, 5)>>%s}'
    more = ', <<R(5, 13), R(12, 13)>>, <<R(-12, 13), R(-5, 13)>>, <<R(24, 25), R(7, 25)>>'
    consts = dict(As='{RInt(0), R(-1, 2), RInt(1)}', Bs='{RInt(1), RInt(2), R(1, 2)}', Ns='{8, 9}', Mode='"turn"', Rand='FALSE', Depth='3' if not ck.thorough else '4',
                  Zs='{<<RInt(1), RInt(0)>>, <<RInt(0), RInt(-1)>>, <<RInt(-2), RInt(1)>>, <<RInt(-1), RInt(-1)>>}', Rs=rs % '')
    inv = ['Conserved', 'Rotation', 'Unit', 'Emit']
    hs = ck.model('MC_Phases', consts, inv)
    ck.extra['turn_histories'] = len(hs)
    hs = ck.rng.sample(hs, min(len(hs), 20000 if ck.thorough else 2304))
    n = 4000 if ck.thorough else 300
    r = ck.model('MC_Phases', dict(consts, Rand='TRUE', Depth='4', Rs=rs % more, Zs='{<<RInt(3), RInt(-2)>>, <<R(1, 2), RInt(5)>>, <<RInt(-7), RInt(-1)>>, <<RInt(0), RInt(2)>>}',
                                   As='{R(k, 2) : k \\in -3..3}', Bs='{R(k, 2) : k \\in 1..6}'), ['Emit'], simulate=n, depth=5)
    t = ck.model('MC_Phases', dict(consts, Mode='"tune"', Depth='1', Ns='{8, 9, 11, 12}'), ['Half', 'Emit'])
    w = ck.model('MC_Phases', dict(consts, Mode='"tune"', Rand='TRUE', Depth='3', Ns='{8, 9, 12, 15, 20, 33, 64, 97, 1021, 2053, 4096, 6000}'), ['Half', 'Emit'], simulate=4 * n, depth=4)
    hs += ck.rng.sample(r, min(len(r), 2 * n)) + t + ck.rng.sample(w, min(len(w), 4 * n))
    tr = vf.pmap(run, [(x['h'], ck.rng.randrange(1 << 30)) for x in hs])
    can = ck.canaries(tr, [(lambda e, k=k: e['op'] == 'turn' and e[k][1][0] != 0, lambda e, k=k: e[k][1].__setitem__(0, -e[k][1][0])) for k in ('step', 'total', 'back', 'ccw', 'other')]
                      + [(lambda e: e['op'] == 'tune', lambda e: e.update(q=[7, 8, 1])), (lambda e: e['op'] == 'free', lambda e: e.update(q=[7, 8, 1]))])
    ck.validate('Trace_Phases', tr, can)
