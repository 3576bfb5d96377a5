"""K01, K02: relativistic converter; G01: gradient conversion."""
import io
import math
import re
import sys

import vf

# reference constants, CODATA via scipy (independent of the code under test)
from scipy.constants import c as C, e as E, m_e as M_E, physical_constants

ME_EV = physical_constants['electron mass energy equivalent in MeV'][0] * 1e6
QS = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'brho', 'beta', 'gamma']


def rel(v, cfg):
    # the tabulated electron mass in kg and eV agree to 3e-10 only; slow particles amplify that by E/KE
    tol = 2e-9 * (cfg['c'] / (cfg['c'] - cfg['b']))
    DEN = max(cfg['b'] * cfg['md'], cfg['c'])
    from fractions import Fraction
    try:
        v = float(v)
    except Exception:
        return None
    if not math.isfinite(v):
        return None
    f = Fraction(v).limit_denominator(DEN)
    if f == 0:
        return [0, 1] if v == 0 else None
    if abs(float(f) - v) > tol * abs(v) or abs(f.numerator) >= 2 ** 31:
        return None
    return [f.numerator, f.denominator]


def unit_factor(q, u, U):
    """value in reference units = observed / factor"""
    if q in ('energy', 'kenergy'):
        return U if u == 'eV' else U * E
    if q == 'momentum':
        return U if u == 'eV' else U * E / C
    if q == 'mass':
        return U if u == 'eV' else U * E / C ** 2
    if q == 'velocity':
        return C
    if q == 'brho':
        return U / C
    return 1.0


def tag(q, v, U, cfg):
    if q in ('energy', 'kenergy', 'momentum', 'mass'):
        for u in ('eV', 'SI'):
            try:
                r = rel(float(v) / unit_factor(q, u, U), cfg)
            except Exception:
                r = None
            if r:
                return [u] + r
        return ['none', 0, 1]
    try:
        r = rel(float(v) / unit_factor(q, 'eV', U), cfg)
    except Exception:
        r = None
    return ['abs'] + r if r else ['none', 0, 1]


def value(cfg, q):
    a, b, c, m = cfg['a'], cfg['b'], cfg['c'], cfg['mn'] / cfg['md']
    return {'momentum': a / b * m, 'brho': a / b * m, 'energy': c / b * m, 'kenergy': (c - b) / b * m,
            'velocity': a / c, 'beta': a / c, 'gamma': c / b, 'betagamma': a / b}[q]


LAB = {'eV/c': 'eV', 'eV': 'eV', 'J': 'SI', 'kg*m/s': 'SI', 'kg * m/s': 'SI', 'kg': 'SI', 'eV/c^2': 'eV', 'm/s': 'abs',
       '': 'abs', None: 'abs', 'T*m': 'abs'}


def kwargs_of(cfg, U):
    k = {cfg['q']: value(cfg, cfg['q']) * unit_factor(cfg['q'], cfg['iu'], U), 'mass_unit': cfg['mu'],
         'input_unit': cfg['iu'], 'output_unit': cfg['ou']}
    if not cfg.get('dm'):
        k['mass'] = cfg['mn'] / cfg['md'] * unit_factor('mass', cfg['mu'], U)
    return k


def observe(out, U, cfg):
    q = cfg['q']
    lab = lambda x: LAB.get(x.strip() if isinstance(x, str) else x, 'other')
    return dict(obs={k: tag(k, out[k], U, cfg) for k in QS}, p_unit=lab(out['p_unit']), e_unit=lab(out['e_unit']),
                mass=tag('mass', out['mass'], U, cfg), mass_label=lab(out['mass_unit']), input=tag(q, out['input'], U, cfg),
                input_label=lab(out['input_unit']), input_type=str(out['input_type']))


BLANK = dict(obs={k: ['none', 0, 1] for k in QS}, p_unit='', e_unit='', mass=['none', 0, 1], mass_label='',
             input=['none', 0, 1], input_label='', input_type='')


def run_history(kin, hist, U):
    objs, ev, cfgs = {}, [], {}
    for op in hist:
        op = dict(op)
        if op['op'] == 'create':
            st, v = vf.call(kin.Converter, **kwargs_of(op['cfg'], U))
            objs[op['o']], cfgs[op['o']] = v, op['cfg']
            ev.append(dict(op, status='ok' if st == 'ok' else st + v))
            if st != 'ok':
                break
        else:
            # alternate the silent flag: it must not influence the result
            st, v = vf.call(objs[op['o']], silent=(len(ev) % 2 == 0))
            e = dict(op, status='ok' if st == 'ok' else st + v)
            rec = BLANK
            if st == 'ok':
                st2, rec2 = vf.call(observe, v, U, cfgs[op['o']])
                if st2 == 'ok':
                    rec = rec2
                else:
                    e['status'] = 'incomplete-output'
            e.update(rec)
            ev.append(e)
    return dict(ev=ev)


OPT = {'momentum': '-p', 'velocity': '-v', 'energy': '-E', 'kenergy': '-KE', 'betagamma': '-bg', 'brho': '-r',
       'beta': '-b', 'gamma': '-g'}
LONG = {'momentum': '--momentum', 'velocity': '--velocity', 'energy': '--energy', 'kenergy': '--kenergy',
        'betagamma': '--betagamma', 'brho': '--brho', 'beta': '--beta', 'gamma': '--gamma'}


def run_cli(kin, cfg, U, long):
    k = kwargs_of(cfg, U)
    argv = ['kinematic', (LONG if long else OPT)[cfg['q']], repr(k[cfg['q']])]
    if 'mass' in k:
        argv += ['--mass' if long else '-m', repr(k['mass'])]
    # defaults are left implicit where they apply
    for name, key in (('--mass_unit', 'mu'), ('--unit', 'iu'), ('--output_unit', 'ou')):
        if cfg[key] != 'eV' or long:
            argv += [name, cfg[key]]
    ev = [dict(op='create', o=1, cfg=cfg, status='ok')]
    e = dict(op='call', o=1)
    e.update(BLANK)
    old = sys.argv

    def go():
        kin.main()
        return sys.stdout.getvalue()
    sys.argv = argv
    try:
        st, text = vf.call(go)
    finally:
        sys.argv = old
    e['status'] = 'ok' if st == 'ok' else st + text
    if st == 'ok':
        num = r'[ \t]*([-+0-9.eE]+|nan|inf)[ \t]*(.*?)[ \t]*$'
        got = {}
        for name, pat in (('velocity', r'velocity:'), ('beta', r'beta:'), ('gamma', r'gamma:'),
                          ('momentum', r'momentum:'), ('betagamma', r'beta \* gamma:'), ('energy', r'energy:'),
                          ('kenergy', r'kinetic energy:'), ('brho', r'Brho:'), ('mass', r'For a particle with mass:'),
                          ('input', r'Based on an input (\w+) of')):
            m = re.search(r'^\s*' + pat + num, text, re.M)
            if m:
                got[name] = m.groups()
        try:
            out = {k: got[k][0] for k in QS}
            out.update(p_unit=got['momentum'][1], e_unit=got['energy'][1], mass=got['mass'][0],
                       mass_unit=got['mass'][1], input_type=got['input'][0], input=got['input'][1],
                       input_unit=got['input'][2])
            e.update(observe(out, U, cfg))
            if LAB.get(got['kenergy'][1]) != LAB.get(got['energy'][1]):
                e['e_unit'] = 'mixed'
        except KeyError:
            e['status'] = 'incomplete-report'
    ev.append(e)
    return dict(ev=ev, cli=argv[1:])


def condition(q, g1, si):
    """Relative accuracy that can be asked for when quantity q is given: the input itself is a rounded number (and the tabulated
    electron mass in kg and in eV agrees to 3e-10 only), which fixes slow particles badly through their gamma or energy and fast
    ones badly through their beta or velocity."""
    eps = 2.3e-16
    t = 1e-12 + (2e-9 if si else 0)
    if q in ('gamma', 'energy'):
        t += (8 * eps + (1e-9 if si and q == 'energy' else 0)) * (1 + 1 / g1)
    elif q in ('beta', 'velocity'):
        t += 8 * eps * (1 + g1) ** 2
    return t


def closure(kin, rng, n):
    """Random physical inputs over the whole range of speeds: the set of quantities is that of the formulas, and converting any
    output again reproduces it."""
    traces = []
    for _ in range(n):
        mev = rng.choice([ME_EV, 938272088.16, 10 ** rng.uniform(3, 12)])
        g1 = 10 ** rng.uniform(-14, 9)          # gamma - 1
        gamma, bg = 1 + g1, math.sqrt(g1 * (2 + g1))
        ou, mu = rng.choice(['eV', 'SI']), rng.choice(['eV', 'SI'])
        mass = mev if mu == 'eV' else mev * E / C ** 2
        fe, fp = (1, 1) if ou == 'eV' else (E, E / C)
        want = dict(gamma=gamma, beta=bg / gamma, betagamma=bg, velocity=bg / gamma * C, brho=bg * mev / C,
                    momentum=bg * mev * fp, energy=gamma * mev * fe, kenergy=g1 * mev * fe)
        si = 'SI' in (mu, ou)
        q0 = rng.choice([q for q in QS if condition(q, g1, si) < 1e-4])

        def go():
            t0 = condition(q0, g1, si)
            a = dict(kin.Converter(mass=mass, mass_unit=mu, input_unit=ou, output_unit=ou, **{q0: want[q0]})(silent=True))
            for k in QS:
                if not abs(a[k] - want[k]) <= t0 * abs(want[k]):
                    return 'first-' + k
            for q in QS:
                t = t0 + condition(q, g1, si)
                if t < 1e-3:
                    b = kin.Converter(mass=mass, mass_unit=mu, input_unit=ou, output_unit=ou, **{q: float(a[q])})(silent=True)
                    for k in QS:
                        if not abs(b[k] - a[k]) <= t * abs(a[k]):
                            return 'from-%s-%s' % (q, k)
            return 'yes'
        st, v = vf.call(go)
        traces.append(dict(ev=[dict(op='closure', agree=v if st == 'ok' else st + v, q0=q0, gamma=repr(gamma),
                                    mass=repr(mev))]))
    return traces


def near(n):     # a=2n(n+1), b=2n+1: fast particles
    return '<<%d,%d,%d>>' % (2 * n * (n + 1), 2 * n + 1, 2 * n * (n + 1) + 1)


def slow(n):
    return '<<%d,%d,%d>>' % (2 * n + 1, 2 * n * (n + 1), 2 * n * (n + 1) + 1)


def _load(ck):
    from rsbeams.rsstats import kinematic
    return kinematic


def K01(ck):
    kin = _load(ck)
    trip = ['<<3,4,5>>', '<<4,3,5>>', '<<5,12,13>>', '<<15,8,17>>', '<<24,7,25>>', '<<20,21,29>>', near(20), slow(20),
            near(100), slow(5)]
    masses = ['<<1,1>>', '<<3,2>>', '<<7,4>>']
    if ck.thorough:
        trip += ['<<21,20,29>>', '<<35,12,37>>', '<<12,35,37>>', '<<40,9,41>>', '<<9,40,41>>', near(40), slow(12), near(70),
                 slow(15), '<<28,45,53>>', '<<45,28,53>>', '<<33,56,65>>', '<<63,16,65>>']
        masses += ['<<1,8>>', '<<5,1>>', '<<2,3>>']
    beh = ck.model('MC_Kinematic', dict(MaxObj=1, MaxCalls=1, Triples='{%s}' % ','.join(trip),
                                        Masses='{%s}' % ','.join(masses), Full='TRUE'),
                   ['ModelConsistent', 'Unique', 'Emit'])
    traces = []
    refs = [ME_EV, 938272088.16, 1.0e6]
    for i, h in enumerate(beh):
        cfg = h[0]['cfg']
        U = refs[i % 3]
        traces.append(run_history(kin, h, U))
        if cfg['mn'] == cfg['md']:
            # default mass (electron)
            hh = [dict(h[0], cfg=dict(cfg, dm=1)), h[1]]
            traces.append(run_history(kin, hh, ME_EV))
            traces.append(run_cli(kin, hh[0]['cfg'], ME_EV, i % 2 == 0))
        elif i % 2 == 0:
            traces.append(run_cli(kin, cfg, U, i % 4 == 0))
    traces += closure(kin, ck.rng, 20000 if ck.thorough else 1500)
    import copy
    can = copy.deepcopy([t for t in traces if len(t['ev']) > 1 and t['ev'][1]['status'] == 'ok'][:1])
    for t in can:
        t['ev'][1]['obs']['brho'][1] += 1
    ck.assumptions += ['reference constants from scipy.constants', 'gamma up to about 100 exactly (1e-9), kinetic energies from 1e-14 to 1e9 rest masses by closure']
    ck.validate('Trace_Kinematic', traces, can)


def K02(ck):
    kin = _load(ck)
    trip = '{<<3,4,5>>, <<24,7,25>>}'
    beh = ck.model('MC_Kinematic', dict(MaxObj=1, MaxCalls=2, Triples='{<<5,12,13>>}', Masses='{<<1,1>>, <<3,2>>}',
                                        Full='TRUE'), ['ModelConsistent', 'Emit'])
    beh += ck.model('MC_Kinematic', dict(MaxObj=2, MaxCalls=3 if ck.thorough else 2, Triples='{<<3,4,5>>}', Masses='{<<3,2>>}', Full='FALSE'),
                    ['ModelConsistent', 'Unique', 'Emit'])
    beh += ck.model('MC_Kinematic', dict(MaxObj=4, MaxCalls=8, Triples=trip, Masses='{<<1,1>>, <<7,4>>}', Full='TRUE'),
                    ['ModelConsistent', 'Emit'], simulate=4000 if ck.thorough else 60, depth=14)
    traces = []
    for i, h in enumerate(beh):
        if i % 3 == 0:
            h = [dict(x, cfg=dict(x['cfg'], dm=1)) if x['op'] == 'create' and x['cfg']['mn'] == x['cfg']['md'] else x
                 for x in h]
            traces.append(run_history(kin, h, ME_EV))
        else:
            traces.append(run_history(kin, h, [938272088.16, 1e6][i % 2]))
    import copy
    can = copy.deepcopy([t for t in traces if t['ev'][-1].get('status') == 'ok'][:1])
    for t in can:
        t['ev'][-1]['mass'][0] = 'SI' if t['ev'][-1]['mass'][0] == 'eV' else 'eV'
    ck.validate('Trace_Kinematic', traces, can)
