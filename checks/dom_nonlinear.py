"""N01: the nonlinear insert."""
import copy
import math
import random
import re

import vf


def q(v):
    return v[0] / v[1]


def rat(v):
    return vf.rat(v, 300000, 1e-11)


def phase(tn, d, k):
    return math.atan(tn / d) / math.pi + k


def madx(elems):
    out = []
    for s in elems:
        m = re.match(r'nllens\s*,(.*);\s*$', s)
        kv = dict((a.strip(), float(b)) for a, b in (x.split('=') for x in m.group(1).split(',')))
        out.append(dict(knll=rat(1e4 * kv['knll']), c2=rat(1e4 * kv['cnll'] ** 2 if kv['cnll'] >= 0 else -1.0)))
    return out


def run(job):
    h, seed = job
    g = random.Random(seed)
    from rsbeams.rslattice.nonlinear import NonlinearInsert
    ins, ks, ev = [], [], []

    def look():
        out = []
        for x, k in zip(ins, ks):
            seq = []
            if hasattr(x, 'knll'):
                assert len(x.knll) == len(x.cnll) == len(x.betas) == len(x.s_vals)
                seq = [dict(beta0=rat(x.beta0), mags=[dict(s=rat(a), beta=rat(b), knll=rat(1e4 * c), c2=rat(1e4 * d ** 2 if d >= 0 else -1.0))
                                                       for a, b, c, d in zip(x.s_vals, x.betas, x.knll, x.cnll)])]
            tn = math.tan(math.pi * (x.phase - k))
            out.append(dict(p=dict(l=rat(x.length), tn=rat(tn), k=k, t=rat(x.t), c=rat(x.c), n=int(x.num_slices)), seq=seq))
        return out

    for e in h:
        e = copy.deepcopy(e)
        st, v = 'ok', None
        if e['op'] == 'new':
            p = e['p']
            kw = dict(t=q(p['t']), c=q(p['c']), num_slices=p['n'])
            if kw['t'] == .1 and g.random() < .7:
                del kw['t']
            if kw['c'] == .01 and g.random() < .7:
                del kw['c']
            if kw['num_slices'] == 20:
                del kw['num_slices']
            a = [q(p['l']), phase(p['tn'][0], p['tn'][1], p['k'])]
            st, v = vf.call(lambda: NonlinearInsert(*a, **kw))
            if st == 'ok':
                ins.append(v)
                ks.append(p['k'])
        elif e['op'] == 'set':
            x = ins[e['i'] - 1]
            k = e['k']
            val = phase(*e['v']) if k == 'phase' else e['v'][0] if k == 'n' else q(e['v'])
            st, v = vf.call(lambda: setattr(x, {'l': 'length', 'n': 'num_slices'}.get(k, k), val))
            if k == 'phase':
                ks[e['i'] - 1] = e['v'][2]
        elif e['op'] == 'gen':
            st, v = vf.call(lambda: ins[e['i'] - 1].generate_sequence())
        else:
            st, v = vf.call(lambda: madx(ins[e['i'] - 1].create_madx()))
            e['madx'] = v if st == 'ok' else []
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        s2, o = vf.call(look)
        if s2 != 'ok':
            e['status'], o = 'unreadable', []
        e['obs'] = o
        ev.append(e)
    return dict(ev=ev, _seed=seed)


def rs(xs):
    return '{%s}' % ', '.join('<<%d, %d>>' % x for x in xs)


LS = [(1, 1), (2, 1), (9, 5), (1, 4)]
TN = [(1, 2), (3, 4), (1, 1), (2, 1), (-1, 2), (-3, 1), (1, 3)]
TS = [(1, 10), (2, 5), (0, 1), (-1, 4), (1, 1), (1, 3)]
CS = [(1, 100), (1, 2), (0, 1), (-1, 10), (3, 2), (1, 1), (1, 3)]


def model(ck, ls, tn, ks, ts, cs, ns, mx, depth, simulate=None):
    return ck.model('MC_Nonlinear', dict(Ls=rs(ls), Tns=rs(tn), Ks='{%s}' % ', '.join(map(str, ks)), Ts=rs(ts), Cs=rs(cs),
                                         Ns='{%s}' % ', '.join(map(str, ns)), MaxIns=mx, Depth=depth, Rand='TRUE' if simulate else 'FALSE'),
                    ['Emit'] if simulate else ['Shape', 'Fresh', 'NonNegative', 'Emit'], simulate=simulate, depth=depth + 2 if simulate else None)


def N01(ck):
    big = ck.thorough
    # every parameter set, generated
    beh = model(ck, LS, TN, [0, 1], TS, CS, [1, 2, 3, 4], 1, 2)
    # every short history of two inserts
    beh += model(ck, LS[:1], TN[:2] if big else TN[:1], [0], TS[:1], [CS[1], CS[3]], [1, 2], 2, 5 if big else 4)
    beh += model(ck, LS, TN, [0, 1, 2, -1], TS, CS, [1, 2, 3, 5, 7, 20], 3, 7, simulate=20000 if big else 1200)
    # many slices
    far = model(ck, LS[:2], TN[2:3], [0, 1], TS[:2] + TS[3:4], [CS[1], CS[4]], [125, 128], 2, 5, simulate=200 if big else 12)
    seen, uniq = set(), []
    for b in far + beh:
        k = repr(b)
        if k not in seen:
            seen.add(k)
            uniq.append(b['h'])
    cap = 60000 if big else 8000
    if len(uniq) > cap:
        uniq = uniq[:100] + ck.rng.sample(uniq[100:], cap)
    traces = vf.pmap(run, [(h, ck.seed * 1000003 + i) for i, h in enumerate(uniq)])
    can = []
    for t in traces:
        o = t['ev'][-1]['obs']
        if o and o[0]['seq'] and t['ev'][-1]['status'] == 'ok':
            c = copy.deepcopy(t)
            c['ev'][-1]['obs'][0]['seq'][0]['mags'][0]['knll'] = [77, 1301, 1]
            can.append(c)
            break
    ck.extra['magnets_compared'] = sum(len(x['mags']) for t in traces for e in t['ev'] for o in e['obs'] for x in o['seq'])
    ck.validate('Trace_Nonlinear', traces, can)
