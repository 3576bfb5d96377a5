"""Q01: physical constants and unit factors."""
import copy
import math

import vf


def log(v):
    v = float(v)
    return round(math.log10(v) * 1e7) if v > 0 and math.isfinite(v) else 2 ** 30


def walk(h):
    ev, now = [], None
    for e in h:
        e = dict(copy.deepcopy(e), log=2 ** 30)

        def go():
            from rsbeams.rsphysics import rsconst as r
            if e['op'] != 'convert':
                return getattr(r, e['name'])
            x = e['step']
            f = getattr(r, x['by']) if x['by'] else 10. ** (x['plain'] // 10 ** 7)
            return now * f if x['sign'] > 0 else now / f
        st, v = vf.call(go)
        if st == 'ok':
            now = v
            st, w = vf.call(lambda: log(v))
            e['log'] = w if st == 'ok' else e['log']
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        ev.append(e)
    return dict(ev=ev)


NAMES = ('c e m_e m_p epsilon_0 mu_0 pi c_SQ c_INV TWO_PI RT_2 RT_TWO_PI RT_2_OVER_PI MKS_factor c_CGS m_e_CGS m_p_CGS C_to_STATC KG_to_EV EV_to_ERG '
         'e_CGS m_e_EV m_p_EV').split()


def Q01(ck):
    hs = []
    for d in range(1, 9 if ck.thorough else 7):
        hs += ck.model('MC_Constants', dict(Depth=str(d)), ['PathFree', 'Vacuum', 'Circle', 'Emit'])
    hs = [x['h'] for x in hs]
    hs += [[dict(op='constant', name=n) for n in ck.rng.sample(NAMES, len(NAMES))] for _ in range(3)]
    # one event per trace as well: a wrong constant must not hide another
    hs += [[dict(op='constant', name=n)] for n in NAMES]
    tr = vf.pmap(walk, hs)
    can = ck.canaries(tr, [(lambda e: e['op'] == op, lambda e: e.update(log=e['log'] + d)) for op, d in (('take', 1000), ('convert', -4000), ('constant', 900))])
    ck.validate('Trace_Constants', tr, can)
