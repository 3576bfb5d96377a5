"""A01 A02: beam statistics; A03 A04: generated and matched beams; A05: the phase-space container."""
import copy
import math
import random

import vf


def ssq(v):
    """Signed square as a rational."""
    v = float(v)
    return vf.rat(math.copysign(v * v, v), 300000, 1e-9)


def rat(v):
    return vf.rat(v, 300000, 1e-9)


def look(a, unit, away, copies=1):
    """The array in the model's units: each row has its own power-of-two unit and may be far from the origin."""
    import numpy as np
    a = np.array(a, float)
    n = a.shape[1] // copies
    if not np.array_equal(np.tile(a[:, :n], copies), a):
        a = a * math.nan        # the copies of a particle are treated alike
    a = (a[:, :n] - away[:, None]) / unit[:, None]
    c = a - a.mean(axis=1, keepdims=True)
    return dict(arr=[[ssq(v) for v in r] for r in a], gram=[[rat(v) for v in r] for r in a.T @ a] if n <= 8 else [],
                cov=[[rat(v) for v in r] for r in c @ c.T / n])


def run_stats(job):
    h, seed = job
    g = random.Random(seed)
    import numpy as np
    from rsbeams.rsstats import stats6d
    ev, a = [], None
    ops = {e['op'] for e in h}
    kind = g.choice(['plain', 'unit', 'units', 'far'])
    unit, away = np.ones(6), np.zeros(6)
    for e in h:
        e = copy.deepcopy(e)
        if e['op'] == 'new':
            unit, away = np.ones(6), np.zeros(6)
            if kind == 'unit' or kind == 'units' and 'rm' in ops:
                unit[:] = 2. ** g.choice([-60, -33, -24, -10, 17, 40])
            elif kind == 'units':
                unit = np.array([2. ** g.choice([-40, -24, -10, 0, 17, 30]) for _ in range(6)])
            elif kind == 'far' and not ops & {'rm', 'norm'}:
                away = np.array([float(g.choice([0, 1, -1, 3]) * 2 ** 20) for _ in range(6)])
            a = np.array(e['arr'], float, order=g.choice('CF'))
            a *= unit[:, None]
            # many particles: every one of the model's stands for as many
            copies = g.choice([2, 3, 40, 1500, 5000]) if kind == 'plain' and g.random() < .25 else 1
            a = np.tile(a, copies)
            a += away[:, None]
            st, v = 'ok', None
        elif e['op'] == 'query':
            def query():
                return {k: getattr(stats6d, f)(a) for k, f in order}
            order = [('avg', 'calc_avg6d'), ('var', 'calc_variance6d'), ('rms', 'calc_rms6d'), ('cor', 'calc_correlations6d'),
                     ('min', 'calc_min6d'), ('max', 'calc_max6d')]
            g.shuffle(order)
            st, v = vf.call(query)
            if st == 'ok':
                for k in ('avg', 'min', 'max'):
                    v[k] = (np.array(v[k], float) - away) / unit
                v['var'], v['rms'], v['cor'] = v['var'] / unit ** 2, v['rms'] / unit, v['cor'] / np.outer(unit, unit)
                st, w = vf.call(lambda: dict(avg=[ssq(x) for x in v['avg']], var=[rat(x) for x in v['var']], rms=[rat(x ** 2 if x >= 0 else -1) for x in v['rms']],
                                             cor=[[rat(v['cor'][i, j]) if i == j else ssq(v['cor'][i, j]) for j in range(6)] for i in range(6)],
                                             min=[ssq(x) for x in v['min']], max=[ssq(x) for x in v['max']]))
                if st == 'ok':
                    e.update(w)
        elif e['op'] == 'sig':
            st, v = vf.call(lambda: stats6d.specify_significant_figures(e['num'] * 10. ** e['ex'] if e['ex'] >= 0 else e['num'] / 10. ** -e['ex'], e['n']))
            e['got'] = -1
            if st == 'ok':
                w = v / 10. ** e['ex'] if e['ex'] >= 0 else v * 10. ** -e['ex']
                if abs(w - round(w)) < 1e-7 * max(1, abs(w)) and abs(w) < 2e9:
                    e['got'] = int(round(w))
        else:
            f = dict(sub='sub_avg6d', norm='normalize_rms6d', rm='rm_correlations6d')[e['op']]
            st, v = vf.call(lambda: getattr(stats6d, f)(a))
            if e['op'] == 'sub':
                away = np.zeros(6)
            elif e['op'] == 'norm':
                unit = np.ones(6)
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        if e['op'] != 'sig':
            e['obs'] = look(a, unit, away, copies)
        ev.append(e)
    return dict(ev=ev, _seed=seed)


def stats_model(ck, mode, vals, ns, depth, ops, simulate=None, inv=('Moments', 'Whitened', 'Emit')):
    return [b['h'] for b in ck.model('MC_Stats', dict(Mode='"%s"' % mode, Vals=vals, Ns='{%s}' % ', '.join(map(str, ns)), Depth=depth,
                                                     Ops='{%s}' % ', '.join('"%s"' % o for o in ops)), list(inv),
                                     simulate=simulate, depth=depth + 2 if simulate else None)]


def uniq(ck, beh, cap):
    seen, out = set(), []
    for h in beh:
        k = repr(h)
        if k not in seen:
            seen.add(k)
            out.append(h)
    return ck.rng.sample(out, cap) if len(out) > cap else out


def stats_validate(ck, hs):
    traces = vf.pmap(run_stats, [(h, ck.seed * 1000003 + i) for i, h in enumerate(hs)])
    can = []
    for t in traces:
        e = t['ev'][-1]
        if e['status'] == 'ok' and e['op'] != 'sig':
            c = copy.deepcopy(t)
            o = c['ev'][-1]['obs']
            o['arr'][2][0], o['gram'] = [77, 1301, 1], [[[77, 1301, 1] for _ in r] for r in o['gram']]
            can.append(c)
            if e['op'] == 'query':
                c = copy.deepcopy(t)
                c['ev'][-1]['cor'][1][4] = [77, 1301, 1]
                can.append(c)
            break
    ck.extra['particles_compared'] = sum(len(e['obs']['arr'][0]) for t in traces for e in t['ev'] if 'obs' in e)
    ck.validate('Trace_Stats', traces, can)


def A01(ck):
    big = ck.thorough
    hs = uniq(ck, stats_model(ck, 'pairs', '{-1, 0, 2}', [1, 2], 2, ['query']), 20000 if big else 900)
    hs += uniq(ck, stats_model(ck, 'pairs', '{-1, 0, 2}', [3], 2, ['query']), 20000 if big else 700)
    hs += uniq(ck, stats_model(ck, 'random', '-3..3', [1, 2, 3, 4, 5], 3, ['query', 'sub'], 10000 if big else 300, ['Emit']), 10 ** 6)
    hs += uniq(ck, stats_model(ck, 'random', '-2..2', [3, 4], 4, ['query', 'sub', 'norm'], 10000 if big else 300, ['Emit']), 10 ** 6)
    hs += uniq(ck, stats_model(ck, 'mixed', '{0}', [8], 3, ['query', 'sub'], 3000 if big else 120, ['Emit']), 10 ** 6)
    for _ in range(20000 if big else 1500):
        d = ck.rng.randint(1, 7)
        num, n = ck.rng.choice([-1, 1]) * ck.rng.randint(10 ** (d - 1), 10 ** d - 1), ck.rng.randint(1, 6)
        k = len(str(abs(num))) - n
        if k > 0 and 2 * (abs(num) % 10 ** k) == 10 ** k:
            continue        # a tie: both neighbours are right
        hs.append([dict(op='sig', num=num, ex=ck.rng.randint(-9, 9), n=n)])
    hs.append([dict(op='sig', num=0, ex=0, n=3)])
    stats_validate(ck, hs)


def A02(ck):
    big = ck.thorough
    hs = uniq(ck, stats_model(ck, 'pairs', '{-1, 2}', [2, 3], 3, ['sub', 'norm']), 20000 if big else 900)
    hs += uniq(ck, stats_model(ck, 'random', '-2..2', [3, 4], 5, ['query', 'sub', 'norm'], 10000 if big else 300, ['Emit']), 10 ** 6)
    hs += uniq(ck, stats_model(ck, 'mixed', '{0}', [8], 5, ['query', 'sub', 'norm', 'rm'], 3000 if big else 80), 10 ** 6)
    stats_validate(ck, hs)


# ------------------------------------------------------------------------------------------------ generated beams
LIGHT = 299792458.


def run_beam(job):
    h, seed, u = job
    import numpy as np
    np.random.seed(seed % 2 ** 32)
    from rsbeams.rsptcls import RsDistrib6D, RsPtclBeam6D, RsTwiss2D
    d, beam, L, ev = None, None, 1., []
    length = math.sqrt(u)

    def q(v):
        return v[0] / v[1]

    def arr():
        return np.array(d.get_phase_space_6d().get_array_6d(), float)

    def obs():
        a = arr() / L
        assert a.shape[0] == 6
        c = a - a.mean(axis=1, keepdims=True)
        s = np.sqrt((c ** 2).mean(axis=1))
        s[s < 1e-6] = 1.
        cov = c @ c.T / a.shape[1]
        return dict(n=a.shape[1] if d.get_phase_space_6d().get_num_ptcls() == a.shape[1] else -1, type=d.get_distrib_type(), fac=rat(d.get_max_rms_fac()),
                    mean=[vf.rat(v, 5000, 1e-8) for v in a.mean(axis=1)],
                    cov=[[vf.rat(cov[i, j], 20000, 1e-8 * max(1., s[i] * s[j])) for j in range(6)] for i in range(6)])

    def triple(t, scale):
        return q(t['a']), q(t['b']), q(t['e']) * scale

    for e in h:
        e = copy.deepcopy(e)
        op, extra, st, v = e['op'], {}, 'ok', None
        if d is None and op not in ('new', 'beam'):
            break       # nothing was made: TLC has the refusal to judge
        if op == 'new':
            def new():
                try:
                    return RsDistrib6D.RsDistrib6D(e['n'], e['type'], q(e['fac'])), True
                except Exception as x:
                    extra['named'] = e['type'] in str(x)
                    raise
            extra['named'] = True
            st, v = vf.call(new)
            if st == 'ok':
                d, beam, L = v[0], None, 1.
        elif op == 'beam':
            m = 9.1e5
            chg = (3e-9, -3e-9, 1e-12, -1.6e-19, 2.5)[seed // 7 % 5]
            tw = [x for t in e['tw'] for x in triple(t, u)]
            st, v = vf.call(lambda: RsPtclBeam6D.RsPtclBeam6D(e['n'], q(e['pm']) * m, chg, m, e['type'], q(e['fac']), *tw))
            if st == 'ok':
                beam, d, L = v, v.get_distrib6d(), length
                st, v = vf.call(lambda: [rat(beam.get_twiss2d_by_name('twiss_' + x).get_gamma_rms()) for x in 'xyz'])
                extra['tg'] = v if st == 'ok' else []
        elif op == 'twiss':
            o = dict(zip(('twiss_x', 'twiss_y', 'twiss_z'), [RsTwiss2D.RsTwiss2D(*triple(t, u)) for t in e['tw']]))
            st, v = vf.call(lambda: d.make_twiss_dist_6d(o, 1.))
            L *= length
            extra['tg'] = [rat(o['twiss_' + x].get_gamma_rms()) for x in 'xyz']
        elif op in ('offset', 'mult'):
            f = d.offset_component if op == 'offset' else d.multiply_component
            st, v = vf.call(lambda: f(q(e['v']) * (L if op == 'offset' else 1.), e['i'] - 1))
        elif op in ('unif', 'gauss'):
            st, v = vf.call(lambda: (d.make_unif_distrib if op == 'unif' else d.make_gauss_distrib)())
            L = 1.
            a = arr()
            if op == 'unif':
                ok = (a[::2] ** 2).sum(axis=0).max() < 1 and (a[1::2] ** 2).sum(axis=0).max() < 1
            else:
                ok = (a ** 2).max() < d.get_max_rms_fac()
            extra.update(inside=int(ok), distinct=int(all(len(set(r)) == a.shape[1] for r in a) and not (a == 0).any()))
        elif op == 'clean':
            st, v = vf.call(lambda: d.clean_phase_space_6d())
            L = 1.
        elif op == 'query':
            st, v = vf.call(lambda: dict(avg=[vf.rat(x / L, 5000, 1e-8) for x in d.calc_averages_6d()],
                                         rms=[vf.rat((x / L) ** 2 if x >= 0 else -1, 20000, 1e-8) for x in d.calc_rms_values_6d()]))
            extra = v if st == 'ok' else {}
        elif op == 'calc':
            def calc():
                if beam is not None:
                    beam.calc_twiss6d()
                    t = [beam.get_twiss2d_by_name('twiss_' + x) for x in 'xyz']
                else:
                    o = {}
                    d.calc_twiss6d(o)
                    t = [o['twiss_' + x] for x in 'xyz']
                return [dict(a=vf.rat(math.copysign(x.get_alpha_rms() ** 2, x.get_alpha_rms()), 20000, 1e-7),
                             b=vf.rat(x.get_beta_rms() ** 2 if x.get_beta_rms() > 0 else -1, 20000, 1e-7),
                             e=vf.rat((x.get_emit_rms() / L ** 2) ** 2 if x.get_emit_rms() > 0 else -1, 20000, 1e-7),
                             g=vf.rat(x.get_gamma_rms() ** 2 if x.get_gamma_rms() > 0 else -1, 20000, 1e-7)) for x in t]
            st, v = vf.call(calc)
            extra['calc'] = v if st == 'ok' else []
        elif op == 'ref':
            def ref():
                if beam.get_mass_ev() != 9.1e5 or beam.get_total_charge_c() != chg:
                    raise ValueError
                assert abs(beam.get_design_p_ev() / beam.get_mass_ev() - beam.get_beta0_gamma0()) < 1e-9
                return dict(bg=rat(beam.get_beta0_gamma0()), g2=rat(beam.get_gamma0() ** 2), b2=rat(beam.get_beta0() ** 2),
                            i2=[0, 1, 0] if not beam.get_peak_current_rms() / chg > 0 else vf.rat((beam.get_peak_current_rms() / (chg * LIGHT) * L) ** 2, 300000, 1e-8))
            st, v = vf.call(ref)
            extra = v if st == 'ok' else {}
        e.update(extra)
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        if d is not None:
            s2, o = vf.call(obs)
            if s2 != 'ok':
                e['status'], o = 'unreadable', dict(n=-1, type='', fac=[0, 1, 0], mean=[], cov=[])
            e['obs'] = o
        ev.append(e)
    return dict(ev=ev, _seed=seed)


def rset(xs):
    return '{%s}' % ', '.join('<<%d, %d>>' % x for x in xs)


AL = [(0, 1), (1, 2), (-1, 2), (3, 4), (-3, 4), (4, 3), (-4, 3), (2, 1), (-3, 1)]
BE = [(1, 1), (5, 4), (1, 2), (5, 3), (10, 1), (1, 10), (2, 1)]
EM = [(1, 1), (2, 1), (1, 4), (3, 1)]
PM = [(3, 4), (4, 3), (5, 12), (12, 5), (8, 15)]


def beam_model(ck, mode, depth, al=AL, be=BE, em=EM, ns=(8, 9, 16, 40, 0, -3), fs=((5, 1), (3, 1), (1, 2), (0, 1), (-1, 1)),
               vs=((2, 1), (-1, 2), (3, 1), (-1, 1), (1, 4), (5, 1)), simulate=None):
    return [b['h'] for b in ck.model('MC_Beam', dict(As=rset(al), Bs=rset(be), Es=rset(em), Ns='{%s}' % ', '.join(map(str, ns)), Fs=rset(fs), Vs=rset(vs), Pms=rset(PM),
                                                   Depth=depth, Mode='"%s"' % mode), ['Courant', 'Decoupled', 'Positive', 'Emit'],
                                     simulate=simulate, depth=depth + 2 if simulate else None)]


def beam_validate(ck, hs):
    traces = vf.pmap(run_beam, [(h, ck.seed * 1000003 + i, (1., 1e-6, 1e-8, 1e-13, 1e-17, 1e4)[i % 6]) for i, h in enumerate(hs)])
    can = []
    for t in traces:
        e = t['ev'][-1]
        if e['status'] == 'ok' and 'obs' in e and e['op'] not in ('unif', 'gauss'):
            for k in ('mean', 'cov'):
                c = copy.deepcopy(t)
                if k == 'mean':
                    c['ev'][-1]['obs']['mean'][3] = [77, 1301, 1]
                else:
                    c['ev'][-1]['obs']['cov'][0][1] = [77, 1301, 1]
                can.append(c)
            break
    ck.extra['beams_compared'] = sum('obs' in e for t in traces for e in t['ev'])
    ck.validate('Trace_Beam', traces, can)


def A03(ck):
    big = ck.thorough
    hs = uniq(ck, beam_model(ck, 'random', 1, simulate=3000 if big else 300), 10 ** 6)
    hs += uniq(ck, beam_model(ck, 'random', 4, em=[(1, 1)], simulate=8000 if big else 500), 10 ** 6)
    hs += uniq(ck, beam_model(ck, 'random', 6, em=[(1, 1)], vs=((2, 1), (-1, 1), (1, 2)), simulate=8000 if big else 300), 10 ** 6)
    # many seeds for every kind of distribution
    for i in range(2000 if big else 200):
        for t in ('uniform', 'gaussian'):
            hs.append([dict(op='new', type=t, n=ck.rng.choice([8, 10, 25, 60]), fac=[5, 1]), dict(op='unif' if t == 'uniform' else 'gauss'), dict(op='clean'), dict(op='query')])
    beam_validate(ck, hs)


def A04(ck):
    big = ck.thorough
    hs = uniq(ck, beam_model(ck, 'grid', 2), 10 ** 6)
    hs += uniq(ck, beam_model(ck, 'random', 3, simulate=8000 if big else 500), 10 ** 6)
    hs += uniq(ck, beam_model(ck, 'random', 5, vs=((2, 1), (-1, 1), (1, 2)), simulate=8000 if big else 300), 10 ** 6)
    beam_validate(ck, hs)


# ------------------------------------------------------------------------------------------------- the container
GETTERS = ['get_array_x', 'get_array_xp', 'get_array_y', 'get_array_yp', 'get_array_s', 'get_array_dp']


def run_ps(job):
    import os
    h, seed = job
    g = random.Random(seed)
    import numpy as np
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    with vf.scratch() as folder:
        cs, ev = [], []

        def ints(a):
            out = [[int(v) for v in r] for r in np.asarray(a)]
            assert all(float(x) == y for r, s in zip(np.asarray(a), out) for x, y in zip(r, s))
            return out

        def look(c):
            s, v = vf.call(lambda: dict(num=int(c.get_num_ptcls()), arr=ints(c.get_array_6d()), rows=[ints([getattr(c, k)()])[0] for k in GETTERS]))
            if s != 'ok':
                v = dict(num=-1, arr=[], rows=[])
            v['file'] = c.get_file_name()
            return v

        def disk():
            out = []
            for f in sorted(os.listdir(folder)):
                with np.load(f) as z:
                    assert len(z.files) == 1
                    out.append(dict(name=f[:-4], arr=ints(z[z.files[0]])))
            return out

        for e in h:
            e = copy.deepcopy(e)
            op = e['op']
            c = cs[e['i'] - 1] if 'i' in e else None
            if op == 'new':
                st, v = vf.call(lambda: RsPhaseSpace6D(e['n']))
                if st == 'ok':
                    cs.append(v)
            elif op == 'setn':
                st, v = vf.call(lambda: c.set_num_ptcls(e['n']))
            elif op == 'set':
                a = np.array(e['arr'], float, order=g.choice('CF'))
                st, v = vf.call(lambda: c.set_array_6d(a))
            elif op == 'file':
                st, v = vf.call(lambda: c.set_file_name(e['name']))
            elif op == 'poke':
                def poke():
                    if e['via'] == 'array':
                        c.get_array_6d()[e['r'] - 1, e['k'] - 1] = e['v']
                    else:
                        getattr(c, GETTERS[e['r'] - 1])()[e['k'] - 1] = e['v']
                st, v = vf.call(poke)
            elif op == 'write':
                st, v = vf.call(lambda: c.write_array())
            elif op == 'read':
                st, v = vf.call(lambda: c.read_array())
            else:
                st, v = vf.call(lambda: c.check_array())
            e['status'] = st if st == 'ok' else st + '-' + str(v)
            e['obs'] = [look(x) for x in cs]
            s2, e['disk'] = vf.call(disk)
            if s2 != 'ok':
                e['status'], e['disk'] = 'unreadable', []
            ev.append(e)
        return dict(ev=ev, _seed=seed)


def ps_model(ck, ns, names, mx, depth, simulate=None):
    return [b['h'] for b in ck.model('MC_PhaseSpace', dict(Ns='{%s}' % ', '.join(map(str, ns)), Names='{%s}' % ', '.join('"%s"' % n for n in names), MaxC=mx, Depth=depth,
                                                         Rand='TRUE' if simulate else 'FALSE'), ['Emit'] if simulate else ['Shaped', 'OnDisk', 'RoundTrip', 'Emit'],
                                     simulate=simulate, depth=depth + 2 if simulate else None)]


def A05(ck):
    big = ck.thorough
    hs = uniq(ck, ps_model(ck, [1, 2, 0], ['a', ''], 1, 4), 30000 if big else 2500)
    hs += uniq(ck, ps_model(ck, [2], ['a'], 2, 5 if big else 4), 30000 if big else 1500)
    hs += uniq(ck, ps_model(ck, [1, 2, 3, 7, 0, -2], ['a', 'b', 'ps6d', 'run.1', ''], 3, 9, 10000 if big else 700), 10 ** 6)
    traces = vf.pmap(run_ps, [(h, ck.seed * 1000003 + i) for i, h in enumerate(hs)])
    can = []
    for t in traces:
        o = t['ev'][-1]['obs']
        if o and o[0]['arr'] and t['ev'][-1]['status'] == 'ok' and not any(e['status'] != 'ok' for e in t['ev']):
            c = copy.deepcopy(t)
            c['ev'][-1]['obs'][0]['rows'][3][0] += 1
            can.append(c)
            break
    ck.extra['containers_compared'] = sum(len(e['obs']) for t in traces for e in t['ev'])
    ck.validate('Trace_PhaseSpace', traces, can)
