"""M01: sampling from a tabulated density."""
import contextlib
import copy
import math
import random

import vf


class Rng:
    """A generator handing out the given variates, in whatever way they are asked for."""

    def __init__(self, ys):
        self.ys, self.used = list(ys), 0

    def take(self, size=None, *a, **k):
        import numpy as np
        size = k.get('size', size)
        n = 1 if size is None else int(np.prod(size))
        out = [self.ys[(self.used + i) % len(self.ys)] for i in range(n)]
        self.used += n
        return out[0] if size is None else np.array(out, float).reshape(size)

    def rand(self, *shape):
        return self.take(shape or None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.take(size)

    random = random_sample = ranf = sample = take


@contextlib.contextmanager
def variates(ys):
    import numpy as np
    g = Rng(ys)
    names = ['random', 'random_sample', 'ranf', 'sample', 'rand', 'uniform']
    old = {k: getattr(np.random, k) for k in names if hasattr(np.random, k)}
    new = np.random.default_rng
    try:
        for k in old:
            setattr(np.random, k, getattr(g, k))
        np.random.default_rng = lambda *a, **k: g
        yield g
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)
        np.random.default_rng = new


def run(job):
    h, seed = job
    import numpy as np
    from rsbeams.rsstats import sample as mod
    g = random.Random(seed)
    ev = []
    for e in h:
        e = copy.deepcopy(e)
        u = g.choice([1., 1., 2. ** -20, 2. ** 12, 2. ** -40]) if 'a' in e else 1.      # unit of the abscissa
        a, b = (e['a'] * u, e['b'] * u) if 'a' in e else (0, 1)
        m = len(e['w']) if 'w' in e else e['m']
        asked, scale = [], 0.125

        def density(x, *args):
            asked.append(len(args))
            if e['op'] == 'default':
                return np.full(np.shape(x), scale)
            if len(args) != len(e['args']):
                raise TypeError('arguments')
            k = np.rint((np.asarray(x, float) - a) / (b - a) * (m - 1)).astype(int)
            w = np.array(e['w'], float)
            if args:
                w = np.roll(w, -int(args[0]))
            if len(args) > 1:
                w[0] *= args[1]
            return w[k] * scale

        kw = {}
        if e.get('args') or g.random() < .3:
            v = tuple(e.get('args', ()))
            kw['args'] = v[0] if len(v) == 1 and g.random() < .5 else list(v) if g.random() < .2 else v
            if e['op'] == 'default':
                kw = {}
        if e['op'] == 'cdf':
            grid = np.linspace(a, b, m)
            st, v = vf.call(lambda: mod.cdf_on_grid(density, grid, **kw))
            if st == 'ok':
                st, v = vf.call(lambda: (vf_list(v), float(np.asarray(v)[-1])))
            e.update(vals=v[0] if st == 'ok' else [], last=int(st == 'ok' and abs(v[1] - 1) <= 0))
        else:
            if e['op'] == 'default':
                e['ys'] = [g.randrange(0 if e['invert'] == 'interpolate' else 1, m) for _ in range(6)]
                # numeric: half a step below, where the answer cannot depend on rounding
                ys = [max(0., (y - (.5 if e['invert'] == 'numeric' else 0.)) / m) for y in e['ys']]
                e['ys'][0], ys[0], scale = m, 1 - 2. ** -53, g.choice([.1, 2.5, 1 / 3.])
                e['method'], n = 'random', 6
            else:
                w = np.roll(np.array(e['w']), -(e['args'][0] if e['args'] else 0))
                if len(e['args']) > 1:
                    w[0] *= e['args'][1]
                t = int(w.sum())
                exact = t & (t - 1) == 0
                lo = 0 if w[0] > 0 or e['invert'] == 'interpolate' else 1
                if not exact:
                    scale = g.choice([.125, .1, 1 / 3.])
                if e['invert'] == 'numeric' and not exact:      # between the steps of the CDF
                    e['ys'] = [[2 * g.randrange(t) + 1, 2 * t] for _ in range(6)]
                else:
                    e['ys'] = [[g.randrange(lo, 2 * t), 2 * t] for _ in range(5)] + [[2 * int(np.cumsum(w)[g.randrange(m)]) % (2 * t), 2 * t]]
                    if e['ys'][-1][0] < lo:
                        e['ys'][-1][0] = lo
                ys = [y[0] / y[1] for y in e['ys']]
                if w[-1] > 0 and e['invert'] == 'numeric' and g.random() < .4:
                    ys[0], e['ys'][0] = 1 - 2. ** -53, [2 * t - 1, 2 * t]       # the largest variate there is
                n = 6 * e['long']
                if e['method'] == 'halton':
                    n, e['ys'] = g.choice([t, 2 * t, 4 * t] if exact else [3, 8]), []
                    if e['long'] > 3:
                        n *= 2 ** (e['long'].bit_length() - 1)
            e['n'] = n
            f = density if e.get('callable', True) else [1., 2., 1.]
            if e['op'] != 'default' or m != 10000 or g.random() < .3:
                kw['wn'] = m
            if e['method'] != 'random' or g.random() < .3:
                kw['method'] = e['method']
            if e['invert'] != 'interpolate' or g.random() < .3:
                kw['invert'] = e['invert']
            # the first five are positional in any order of the documentation
            if e['method'] == 'random':
                with variates(ys):
                    st, v = vf.call(lambda: mod.sample(n, f, a, b, **kw))
            else:
                st, v = vf.call(lambda: mod.sample(n, f, a, b, **kw))
            e.update(rep=0, shape=[], xs=[], pos=[], inside=0, counts=[], distinct=0, above=0)
            if st == 'ok':
                v = np.asarray(v, float)
                e['shape'] = list(v.shape)
                x = v.ravel()
                e['inside'] = int(bool(np.all((x >= a - 1e-12 * u) & (x <= b + 1e-12 * u))))
                p = (x - a) / (b - a) * (m - 1) if np.isfinite(x).all() else np.full(x.shape, -1.)
                above = x[x > a + 1e-12 * u]
                e['distinct'], e['above'] = len(np.unique(above)), len(above)
                e['rep'] = int(e['method'] != 'random' or np.array_equal(np.resize(x[:6], x.shape), x))
                if e['op'] == 'default':
                    e['xs'] = [vf.rat(i, 10, 1e-9) for i in p]
                else:
                    e['xs'] = [vf.rat(i / u, 100000, 1e-9) for i in x[:6]] if e['method'] == 'random' else []
                e['pos'] = [int(min(1e8, max(-1e8, math.floor(i * 1000 + 1e-6)))) for i in p[:6]] if e['method'] == 'random' else []
                if e['op'] == 'sample':
                    k = np.rint(p)
                    e['counts'] = [int(np.sum((k == j) & (abs(p - j) < 1e-9))) for j in range(m)]
        e['status'] = st if st == 'ok' else st + ('-' + str(v) if v else '')
        ev.append(e)
    return dict(ev=ev)


def vf_list(v):
    import numpy as np
    return [vf.rat(x, 5000, 1e-12) for x in np.asarray(v, float)]


def M01(ck):
    inv = ['Rising', 'Ends1', 'Supported', 'Monotone', 'Share', 'Agree', 'Emit']
    ends = '{<<0, 1>>, <<-2, 3>>, <<1, 5>>, <<-4, -1>>, <<10, 11>>}'
    hs = ck.model('MC_Sampling', dict(Ws='{0, 1, 3}', Ms='{2, 4}' if not ck.thorough else '{2, 3, 4, 5}', Ends='{<<-1, 2>>}', Depth='1', Mode='"small"', Rand='FALSE'), inv)
    ck.extra['single_calls'] = len(hs)
    hs = ck.rng.sample(hs, min(len(hs), 15000 if ck.thorough else 1500))
    n = 6000 if ck.thorough else 1000
    r = ck.model('MC_Sampling', dict(Ws='0..5', Ms='{4, 5, 6, 8, 9}', Ends=ends, Depth='4', Mode='"random"', Rand='TRUE'), ['Emit'], simulate=n, depth=5)
    d = ck.model('MC_Sampling', dict(Ws='1..2', Ms='{4}', Ends=ends, Depth='2', Mode='"default"', Rand='TRUE'), ['Emit'], simulate=n // 20, depth=3)
    hs += ck.rng.sample(r, min(len(r), n)) + ck.rng.sample(d, min(len(d), n // 10))
    tr = vf.pmap(run, [(x['h'], ck.rng.randrange(1 << 30)) for x in hs])

    can = ck.canaries(tr, [(lambda e: e['op'] == 'sample' and e['method'] == 'random' and e['invert'] == 'numeric', lambda e: vf.bump(e['xs'][0])),
                           (lambda e: e['op'] == 'sample' and e['method'] == 'halton' and e['invert'] == 'numeric', lambda e: e['counts'].__setitem__(0, e['counts'][0] + 1)),
                           (lambda e: e['op'] == 'cdf', lambda e: vf.bump(e['vals'][0])),
                           (lambda e: e['op'] == 'sample' and e['method'] == 'halton', lambda e: e['shape'].append(1)),
                           (lambda e: e['op'] == 'sample' and e['method'] == 'halton' and e['invert'] == 'interpolate' and len(set(e['w'])) == 1 and len(e['w']) > 3 and len(e['args']) < 2,
                            lambda e: e.update(distinct=e['distinct'] - 1)),
                           (lambda e: e['op'] == 'sample', lambda e: e.update(inside=0)),
                           (lambda e: e['op'] == 'default', lambda e: vf.bump(e['xs'][0]))])
    ck.validate('Trace_Sampling', tr, can)
