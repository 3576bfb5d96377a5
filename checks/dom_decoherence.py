"""C01: decoherence centroids."""
import copy
import math
import random
import time

import vf


def q(v):
    return v[0] / v[1]


def make(e, delays=None):
    from rsbeams.rsphysics.decoherence import CentroidPosition

    class Delayed(CentroidPosition):
        """The schedule of the specification: turn t takes delays[t]."""

        def wait(self, turn):
            if delays and turn is not None and turn < len(delays):
                time.sleep(delays[turn])

        def integrate_any_order(self, turn=None):
            self.wait(turn)
            return CentroidPosition.integrate_any_order(self, turn)

        def integrate_first_order(self, turn=None):
            self.wait(turn)
            return CentroidPosition.integrate_first_order(self, turn)

        def integrate_second_order(self, turn=None):
            self.wait(turn)
            return CentroidPosition.integrate_second_order(self, turn)

    cls = Delayed if delays else CentroidPosition
    return cls(e['n'], q(e['z']), e['j'] / 16., [m / 16. for m in e['m']])


def seen(x, z):
    x = float(x) / z
    if not math.isfinite(x):
        return 2000000000, [0, 1, 0]
    return int(round(max(-2., min(2., x)) * 1e6)), vf.rat(x * math.pi, 200, 1e-9)


def run(job):
    h, seed = job
    g = random.Random(seed)
    ev, c, z = [], None, 1.
    for e in h:
        e = copy.deepcopy(e)
        if e['op'] == 'new':
            z = q(e['z'])
            st, v = vf.call(lambda: make(e, e.pop('_delays', None)))
            c, new = v if st == 'ok' else None, e
        elif e['op'] == 'one':
            f = getattr(c, 'integrate_%s_order' % e['route'])
            st, v = vf.call(lambda: float(f() if e['turn'] < 0 else f(e['turn']) if g.random() < .5 else f(turn=e['turn'])))
            e['v'], e['p'] = seen(v if st == 'ok' else math.nan, z)
            e['fine'] = 0
            used = dict(first=1, second=2).get(e['route'], 9)
            t = new['n'] if e['turn'] < 0 else e['turn']
            possible = t > 0 and (e['route'] == 'any' or (e['route'] == 'first' and any(new['m'][:1])) or (e['route'] == 'second' and len(new['m']) > 1 and new['m'][1] > 0))
            if st == 'ok' and possible and e['route'] != 'any':
                ref = make(dict(new, m=new['m'][:used]))
                s2, w = vf.call(lambda: float(ref.integrate_any_order(t)))
                e['fine'] = min(10 ** 8, int(abs(w - v) / abs(z) * 1e8)) if s2 == 'ok' and math.isfinite(v) and math.isfinite(w) else 10 ** 8
        else:
            st, v = vf.call(lambda: [float(x) for x in (c.calculate_centroids() if e['p'] == 0 else c.calculate_centroids(e['p']) if g.random() < .5 else c.calculate_centroids(p=e['p']))], seconds=60)
            o = [seen(x, z) for x in v] if st == 'ok' else []
            e.update(vs=[x[0] for x in o], ps=[x[1] for x in o], fine=0)
            ref = make(new)
            if st == 'ok' and len(v) == new['n']:
                s2, w = vf.call(lambda: [float(ref.integrate_any_order(t)) for t in range(new['n'])])
                d = max([abs(a - b) / abs(z) * 1e8 if math.isfinite(a) else 1e8 for a, b in zip(v, w)], default=0) if s2 == 'ok' else 1e8
                e['fine'] = min(10 ** 8, int(d))
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        ev.append(e)
        if c is None:
            break
    return dict(ev=ev)


def C01(ck):
    g = ck.rng
    pool = dict(Turns='{1, 3, 4, 5}', Sizes='{1, 2}', Workers='{1, 2, 3}', Js='{0}', Ms='{0}', Zs='{<<1, 1>>}', Depth='1', Far='{}', Mode='"pool"', Rand='FALSE')
    if ck.thorough:
        pool.update(Turns='1..7', Sizes='{1, 2, 3}', Workers='1..4')
    s = ck.model('MC_Decoherence', pool, ['InOrder', 'Once', 'Emit'])
    ck.model('MC_Decoherence', dict(pool, Turns='{1, 3, 4}'), ['InOrder'], ['Ends'], spec='FairSpec')
    sched = list({(x['n'], x['size'], tuple(x['done'])): x for x in s}.values())
    ck.extra['schedules'] = len(sched)
    js = '{-4, 0, 3, 4, 5, 8, 12, 16}'
    v = ck.model('MC_Decoherence', dict(pool, Turns='{1, 3}', Js=js, Ms='{-4, 0, 1, 4, 8, 12}', Zs='{<<3, 2>>}', Depth='2', Mode='"values"'), ['Agree', 'Bounded', 'Emit'])
    n = 3000 if ck.thorough else 500
    r = ck.model('MC_Decoherence', dict(pool, Turns='0..4' if not ck.thorough else '0..6', Js='-20..20', Ms='-6..8', Zs='{<<3, 2>>, <<-1, 4>>, <<10, 1>>}', Depth='4', Mode='"values"', Rand='TRUE', Far='{7, 10, 13, 20, 25, 40, 50, 64, 99, 128, 160}'),
                 ['Emit'], simulate=n, depth=5)
    # averages that are known exactly
    w = ck.model('MC_Decoherence', dict(pool, Turns='0..4', Js='{-8, -4, 0, 4, 8, 12}', Ms='{0, 4, -4, 8}', Zs='{<<3, 2>>, <<10, 1>>}', Depth='4', Mode='"values"', Rand='TRUE', Far='{5, 7, 10, 13, 20, 25, 37, 40, 50, 64, 80}'),
                 ['Emit'], simulate=n // 2, depth=5)
    w = [x for x in w if any(x['h'][0]['m'][:1]) and not any(x['h'][0]['m'][1:])]
    hs = [x['h'] for x in w[:600 if ck.thorough else 100]] + [x['h'] for x in v if not any(x['h'][0]['m']) or g.random() < .5][:4000] + [x['h'] for x in g.sample(r, min(len(r), 2 * n))]
    k = 600 if ck.thorough else 100
    rest = hs[k:]
    g.shuffle(rest)
    hs = hs[:k] + rest[:12000 if ck.thorough else 1500]
    tr = vf.pmap(run, [(h, g.randrange(1 << 30)) for h in hs])
    # the schedules, replayed with delays (not in pmap: its workers cannot have children)
    news = [x['h'][0] for x in r]
    for k in range(400 if ck.thorough else 60):
        x = g.choice(sched)
        e = dict(copy.deepcopy(g.choice(news)), n=x['n'])
        if k % 4 == 0:
            e['m'] = g.choice([[], [0], [0, 0], [4], [-4, 0], [2, -3], [0, 5], [0, 0, 0], [8, 0, 0]])
        rank = {c: i for i, c in enumerate(x['done'])}
        e['_delays'] = [.012 * (rank[t // x['size'] + 1] + 1) for t in range(x['n'])]
        h = [e, dict(op='all', p=g.choice([x['workers'], 1, 2, 5, 0]))]
        if g.random() < .3:
            h.append(dict(op='all', p=2))
        tr.append(run((h, g.randrange(1 << 30))))
    def off(e):
        e['v'] += 10000 if e['v'] < 0 else -10000
        vf.bump(e['p'])
    can = ck.canaries(tr, [(lambda e: e['op'] == 'one' and e['route'] == 'any', off),
                           (lambda e: e['op'] == 'all' and e['vs'], lambda e: (e['vs'].pop(), e['ps'].pop())),
                           (lambda e: e['op'] == 'all' and len(e['vs']) > 2 and abs(e['vs'][0] - e['vs'][-1]) > 50000, lambda e: (e['vs'].reverse(), e['ps'].reverse())),
                           (lambda e: e['op'] == 'all', lambda e: e.update(fine=1000))])
    ck.validate('Trace_Decoherence', tr, can)
