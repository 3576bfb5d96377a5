"""V01 V02 V03 V04: plot labels, magnet profiles, phase space plots, scatter plots."""
import copy
import math
import random
import re

import vf


def q(v):
    return v[0] / v[1]


# ------------------------------------------------------------------------------------------------ V01 symbols
def symbols(job):
    tss, seed = job
    from rsbeams.rsplot import util
    g = random.Random(seed)
    ev = []
    for ts in tss:
        text = ''.join(ts)
        math_ = g.random() < .8
        e = dict(op='label', ts=ts, math=math_, out=[], dollars=0)
        st, v = vf.call(lambda: util.format_symbol(text) if math_ and g.random() < .7 else util.format_symbol(text, matplotlib=math_))
        if st == 'ok' and not isinstance(v, str):
            st, v = 'err', 'type'
        if st == 'ok':
            body = v
            if len(v) > 1 and v[0] == '$' and v[-1] == '$':
                body, e['dollars'] = v[1:-1], 2
            e['dollars'] += body.count('$')
            out = []
            for t in re.findall(r'\\[A-Za-z]+|.', body, re.S):
                if not (t == ' ' and out and out[-1].startswith('\\')):
                    out.append(t)
            e['out'] = out
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        ev.append(e)
    return dict(ev=ev)


REAL = ['$gs$r$bx$n', '$gb$r$bx$n', "$gs$r$by'$n", '$ge$r$bx,cn$n', '$gs$bd$n$r', 'p$bcen$n', '<x$a2$n>$a1/2$n', 'd$gn$r$bx$n/dp', 'm$be$nc', '$gDb$r',
        '$gb$rx', '$gD$rs', '$gm$rm', '$sa$e5', '$gc$r$bx$n', 'R$b56$n', '$ga$r$bc$n (1/m$a2$n)', '$gb0$r', '$gA$r', '1/$gr$ra', '$bx', '$ax$bi$n', 'x$n', '', 'm', 'mm mrad']


def tokens(text):
    return re.findall(r'\$.|.', text)


def V01(ck):
    inv = ['Same', 'Even', 'Kept', 'Plain', 'Emit']
    k = 5 if ck.thorough else 4
    hs = ck.model('MC_Symbol', dict(Chars='{"x", "a", "2"}', Max=str(k), Min='1', Rand='FALSE'), inv)
    ck.extra['exhaustive_strings'] = len(hs)
    chars = '{%s}' % ', '.join('"%s"' % c for c in "abcdefghijklmnopqrstuvwxyzABCDGLPQSXYUFW0159,()<>/'+-*. |=")
    n = 8000 if ck.thorough else 800
    r = ck.model('MC_Symbol', dict(Chars=chars, Max='12', Min='12', Rand='TRUE'), ['Even', 'Kept', 'Emit'], simulate=n, depth=14)
    r = ck.rng.sample(r, min(len(r), 2 * n))
    ts = [x['ts'] for x in hs] + [x['ts'][:ck.rng.randrange(5, 13)] for x in r] + [tokens(s) for s in REAL]
    # every letter in every font
    for f in ([], ['$g'], ['$s'], ['$r'], ['$g', '$r'], ['$s', '$e'], ['$s', '$g'], ['$g', '$s']):
        ts += [f + [c] + ['x'] for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789']
    ck.rng.shuffle(ts)
    ck.extra['strings'] = len(ts)
    tr = vf.pmap(symbols, [(ts[i:i + 8], ck.rng.randrange(1 << 30)) for i in range(0, len(ts), 8)])
    can = ck.canaries(tr, [(lambda e: len(e['out']) > 1, lambda e: e['out'].pop()),
                           (lambda e: e['out'] != e['out'][::-1], lambda e: e['out'].reverse()),
                           (lambda e: e['math'], lambda e: e.update(dollars=1))])
    ck.validate('Trace_Symbol', tr, can)


# ------------------------------------------------------------------------------------------------ V02 profiles
def close_all():
    import matplotlib.pyplot as plt
    plt.close('all')


def read_profile(e, ax, coll):
    """What was drawn."""
    import numpy as np
    from matplotlib.colors import to_hex
    end = e['rows'][-1]['s'] / 8. * q(e['scale'])
    e['added'] = int(any(c is coll for c in ax.collections))
    faces = coll.get_facecolors() if hasattr(coll, 'get_facecolors') else coll.get_facecolor()
    paths = coll.get_paths()
    rects = []
    for i, p in enumerate(paths):
        x = p.get_extents()
        rects.append(dict(lo=vf.rat(x.x0, 5000, 1e-9), hi=vf.rat(x.x1, 5000, 1e-9), bottom=vf.rat(x.y0, 5000, 1e-9), top=vf.rat(x.y1, 5000, 1e-9),
                          colour=to_hex(faces[i % len(faces)])))
    e['rects'] = rects
    e['line'] = e['beyond'] = 0
    for l in ax.lines:
        x, y = (np.asarray(v, float) for v in l.get_data())
        if len(x) >= 2 and abs(y).max() == 0 and abs(x.min()) < 1e-12 and abs(x.max() - end) < 1e-9:
            e['line'] = 1
        elif len(x) and (x.max() - x.min() > 1e-9 or x.min() < -1e-9 or x.max() > end + 1e-9):
            e['beyond'] = 1


def profile(job):
    h, seed = job
    import numpy as np
    import matplotlib.pyplot as plt
    from rsbeams.rsplot import util
    g = random.Random(seed)
    ev = []
    for e in h:
        e = copy.deepcopy(e)
        e.update(rects=[], added=0, line=0, beyond=0)
        kind = g.choice(['object', 'U20', 'S100'])
        dt = [('s', float), ('ElementName', object), ('ElementType', object if kind == 'object' else kind)]
        if g.random() < .5:
            dt.reverse()
        a = np.zeros(len(e['rows']), dtype=dt)
        for i, r in enumerate(e['rows']):
            a['s'][i], a['ElementType'][i], a['ElementName'][i] = r['s'] / 8., r['type'], 'QUAD%d' % i
        fig, ax = plt.subplots()
        kw = {}
        if e['scale'] != [1, 1]:
            kw['scale'] = q(e['scale'])
        if e['height'] != [1, 4] or g.random() < .3:
            kw['height'] = q(e['height'])
        st, v = vf.call(lambda: util.plot_profile(a, ax, **kw))
        if st == 'ok':
            st, v = vf.call(lambda: (read_profile(e, ax, v), 0)[1])
        e['status'] = st if st == 'ok' else st + '-' + str(v)
        ev.append(e)
        close_all()
    return dict(ev=ev)


def V02(ck):
    every = '{"KQUAD", "QUAD", "SBEND", "CSBEND", "CSRCSBEND", "RBEND", "SBEN", "SEXT", "RFCW", "RFCA", "OCTU", "KOCT", "DRIF", "MARK", "WATCH", "ECOL", "QUADX", "CHARGE"}'
    some = '{"KQUAD", "SBEN", "DRIF"}' if not ck.thorough else '{"QUAD", "CSBEND", "SEXT", "MARK"}'
    inv = ['Ordered', 'Emit']
    hs = ck.model('MC_Profile', dict(Types=some, Steps='{0, 3}', Scales='{<<1, 1>>, <<3, 2>>}', Heights='{<<1, 4>>}', Depth='1', Max='3', Rand='FALSE', Early='TRUE', Back='{0}'), inv)
    ck.extra['small_lines'] = len(hs)
    hs = ck.rng.sample(hs, min(len(hs), 8000 if ck.thorough else 500))
    one = ck.model('MC_Profile', dict(Types=every, Steps='{5}', Scales='{<<1, 1>>}', Heights='{<<1, 2>>}', Depth='1', Max='1', Rand='FALSE', Early='TRUE', Back='{0}'), inv)
    n = 4000 if ck.thorough else 400
    r = ck.model('MC_Profile', dict(Types=every, Steps='{0, 1, 4, 8, 11}', Scales='{<<1, 1>>, <<1, 1>>, <<1000, 1>>, <<1, 10>>, <<5, 2>>}', Heights='{<<1, 4>>, <<1, 1>>, <<3, 5>>}', Depth='3', Max='9', Rand='TRUE', Early='TRUE', Back='{0, 0, 2}'),
                 ['Emit'], simulate=n, depth=40)
    # as many elements as rings have
    m = ck.rng.randint(1100, 1300)
    w = ck.model('MC_Profile', dict(Types=every, Steps='{0, 1, 4, 8, 11}', Scales='{<<1, 1>>, <<1, 10>>}', Heights='{<<1, 4>>}', Depth='1', Max=str(m), Rand='TRUE', Early='FALSE', Back='{0, 0, 1}'),
                 ['Emit'], simulate=40 if ck.thorough else 6, depth=m + 3)
    hs += w[:60 if ck.thorough else 4]
    hs += one + ck.rng.sample(r, min(len(r), n))
    tr = vf.pmap(profile, [(x['h'], ck.rng.randrange(1 << 30)) for x in hs])
    can = ck.canaries(tr, [(lambda e: e['rects'], lambda e: vf.bump(e['rects'][0]['hi'])),
                           (lambda e: e['rects'], lambda e: vf.bump(e['rects'][0]['top'])),
                           (lambda e: e['rects'], lambda e: e['rects'].pop()),
                           (lambda e: e['line'], lambda e: e.update(line=0)),
                           (lambda e: len({x['colour'] for x in e['rects']}) > 1, lambda e: [x.update(colour='#000000') for x in e['rects']])])
    ck.validate('Trace_Profile', tr, can)


# ------------------------------------------------------------------------------------------------ V03 beam plots
COLS = ['x', 'xp', 'y', 'yp', 't', 'p']
UNIT = dict(x=1e-3, xp=1e-3, y=1e-3, yp=1e-3, t=1e-12, p=1.)


def write_file(path, pages, syms, m=1):
    o = ['SDDS1']
    if pages[0]['charge']:
        o.append('&parameter name=Charge, units=C, type=double, &end')
    for n, c in [(c, c) for c in COLS] + [('Sx', 'x'), ('Sy', 'y')]:
        o.append('&column name=%s, %sdescription="about %s", units="%s", type=double, &end' % (n, 'symbol="%s", ' % syms[c] if syms[c] else '', c, 'm' if c != 'p' else ''))
    o += ['&column name=s, units=m, type=double, &end', '&column name=ElementType, type=string, &end', '&data mode=ascii, &end']
    for p in pages:
        if p['charge']:
            o.append(repr(q(p['charge']) * 1e-12))
        o.append(str(len(p['s']) * m))
        for i in range(len(p['s'])):
            o += m * [(' '.join([repr(p['cols'][c][i] * UNIT[c]) for c in COLS + ['x', 'y']] + [repr(p['s'][i] / 8.), p['types'][i]]))]
    with open(path, 'w') as f:
        f.write('\n'.join(o) + '\n')


def occupied(centres, heights, m=1):
    import numpy as np
    c, n = np.asarray(centres, float), np.asarray(heights, float)
    return [dict(k=int(i), n=vf.rat(n[i] / m, 4000, 1e-9), c=vf.rat(c[i], 20000, 1e-8)) for i in np.nonzero(n)[0]]


def pixels(im, m=1):
    import numpy as np
    a = np.asarray(im.get_array(), float)
    if im.origin != 'lower':
        a = a[::-1]
    return [dict(row=int(r), col=int(c), n=int(a[r, c]) // m if a[r, c] % m == 0 else -1) for r, c in zip(*np.nonzero(a))], list(a.shape), [vf.rat(v, 20000, 1e-8) for v in im.get_extent()]


def three(e, m):
    """The image, and the lines to its right and below it."""
    import matplotlib.pyplot as plt
    axes = plt.gcf().axes
    hm = next(a for a in axes if a.images)
    box = hm.get_position()
    right = next(a for a in axes if a.lines and a.get_position().x0 >= box.x1)
    below = next(a for a in axes if a.lines and a.get_position().y1 <= box.y0)
    e['image'], e['size'], e['extent'] = pixels(hm.images[0], m)
    n, c = right.lines[0].get_data()
    e['right'] = occupied(c, n, m)
    c, n = below.lines[0].get_data()
    # a current, or counts relative to the fullest, does not depend on the number of particles
    e['below'] = occupied(c, n, m if e['op'] == 'plane' else 1)
    e['labels'] = [below.get_xlabel(), hm.get_ylabel()]
    e['kind'] = 'current' if '(A)' in below.get_ylabel() else 'counts' if 'Counts' in below.get_ylabel() else 'unknown'
    if 'Counts' not in right.get_xlabel():
        e['labels'].append(right.get_xlabel())


SYM = dict(x=['x', '', '$gb$r$bx$n'], xp=["x'", '', "$ga$r$bx$n"], y=['y', ''], yp=["y'", '', "$gs$r$by'$n"], t=['t', '', '$gt$r'], p=['p', ''])
LABEL = {'$gb$r$bx$n': '$\\beta_{x}$', '$ga$r$bx$n': '$\\alpha_{x}$', "$gs$r$by'$n": "$\\sigma_{y'}$", '$gt$r': '$\\tau$'}


def beams(job):
    h, seed, m = job    # m: every particle m times
    import os
    import numpy as np
    import matplotlib.pyplot as plt
    from rsbeams.rsplot import util, beam_plots
    from rsbeams.rsdata.SDDS import readSDDS
    g = random.Random(seed)
    ev, rd, syms, pages = [], None, None, None
    with vf.scratch():
        for e in h:
            e = copy.deepcopy(e)
            op = e['op']
            close_all()
            kw = {}
            if 'page' in e and (e['page'] or g.random() < .3):
                kw['page'] = e['page']
                if g.random() < .15 and pages and e['page'] < len(pages):
                    kw['page'] -= len(pages)      # counted from the end
            e['saved'] = 1
            if op not in ('open', 'hist', 'time') and g.random() < .15:
                kw['save'] = 'p%d.png' % len(ev)
            if op == 'open':
                syms, pages = {c: g.choice(SYM[c]) for c in COLS}, e['pages']
                write_file('f.sdds', pages, syms, m)

                def go():
                    r = readSDDS('f.sdds')
                    r.read()
                    return r
                st, v = vf.call(go)
                rd = v if st == 'ok' else None
            elif op in ('hist', 'time'):
                e.update(bins=[], total=0)
                d = np.tile(np.array(e['d'], float), m)
                b = g.choice([int, float])(e['b'])
                if op == 'hist':
                    st, v = vf.call(lambda: util.get_histogram_points(d, b))
                    if st == 'ok':
                        e['total'], e['bins'] = len(v[1]), occupied(v[0], v[1], m)
                else:
                    k = dict(bin_number=b)
                    st, v = vf.call(lambda: util.get_current_from_t(d * 1e-12, q(e['q']) * 1e-12, **k))
                    if st == 'ok':
                        e['total'], e['bins'] = len(v[1]), occupied(np.asarray(v[0]) * 1e12, v[1])
            elif op == 'plane':
                e.update(image=[], size=[], extent=[], right=[], below=[], labels=[], kind='')
                c = (e['cx'], e['cy'])
                f = {('x', 'xp'): beam_plots.horizontal_phase_space, ('y', 'yp'): beam_plots.vertical_phase_space}.get(c)
                if f is None or g.random() < .2:
                    t = {'x': 'x (mm)', 'xp': "x' (mrad)", 'y': 'y (mm)', 'yp': "y' (mrad)"}
                    k = dict(kw, x_label=t[c[0]], y_label=t[c[1]])
                    st, v = vf.call(lambda: beam_plots.phase_space_projection(rd, c[0], c[1], **k))
                else:
                    st, v = vf.call(lambda: f(rd, **kw))
                if st == 'ok':
                    st, v = vf.call(lambda: three(e, m))
            elif op == 'length':
                e.update(image=[], size=[], extent=[], right=[], below=[], labels=[], kind='')
                if e['q']:
                    kw['charge'] = q(e['q']) * 1e-12
                elif g.random() < .3:
                    kw['charge'] = 'auto'
                st, v = vf.call(lambda: beam_plots.longitudinal_phase_space(rd, **kw))
                if st == 'ok':
                    st, v = vf.call(lambda: three(e, m))
            elif op == 'four':
                e.update(images=[], sizes=[], extents=[], labels=[])
                if e['b'] != 128:
                    kw['bins'] = e['b']
                st, v = vf.call(lambda: beam_plots.phase_space(rd, **kw))

                def four():
                    axes = sorted((a for a in plt.gcf().axes if a.images), key=lambda a: (-round(a.get_position().y0, 3), a.get_position().x0))
                    for a in axes:
                        i, s, x = pixels(a.images[0], m)
                        e['images'].append(i)
                        e['sizes'].append(s)
                        e['extents'].append(x)
                        e['labels'].append([a.get_xlabel(), a.get_ylabel()])
                if st == 'ok':
                    st, v = vf.call(four)
            else:
                e.update(lines=[], ss=[], names=[], wanted=[], magnets=0, limits=1, axes=[], wantedaxes=[], aligned=1)
                lim = g.random() < .3
                if lim:
                    lx, ly = g.choice([(.25, 3.), (0., 3.), (-1., 0.), (0, 2), (2.5, 0.)]), g.choice([(-2., 5.), (0., 4.), (-3., 0.), (4., -1.)])
                    kw.update(xlim=lx, ylim=g.choice([tuple, list])(ly))
                if g.random() < .15:
                    e['quantities'] = ['x', 'y']
                # Sx and Sy (here the columns x and y) are shown when nothing is asked for
                if list(e['quantities']) != ['x', 'y'] or g.random() < .3:
                    kw['quantities'] = g.choice([list, tuple])(e['quantities'])
                st, v = vf.call(lambda: beam_plots.beamline_profile(rd, **kw))

                def lines():
                    axes = plt.gcf().axes
                    data = next(a for a in axes if a.get_legend() is not None)
                    other = next(a for a in axes if a is not data)
                    for l, c in zip(data.lines, e['quantities']):
                        x, y = l.get_data()
                        e['lines'].append([vf.rat(k / UNIT[c], 100, 1e-9) for k in y])
                        e['ss'].append([vf.rat(k, 100, 1e-9) for k in x])
                    e['axes'] = [data.get_xlabel(), data.get_ylabel()]
                    e['names'] = [t.get_text() for t in data.get_legend().get_texts()]
                    e['aligned'] = int(np.allclose(data.get_xlim(), other.get_xlim()))
                    e['magnets'] = sum(len(c.get_paths()) for c in other.collections)
                    if lim:
                        e['limits'] = int(np.allclose(data.get_xlim(), lx) and np.allclose(data.get_ylim(), ly))
                    if len(data.lines) != len(e['quantities']):
                        e['lines'] = []
                e['wanted'] = [LABEL.get(syms[c], '$%s$' % syms[c]) if syms[c] else 'about ' + c for c in e['quantities']]
                e['wantedaxes'] = ['s (m)', '%s (%s)' % (','.join(e['wanted']), ','.join('$-$' if c == 'p' else '$m$' for c in e['quantities']))]
                if st == 'ok':
                    st, v = vf.call(lines)
            if 'save' in kw:
                e['saved'] = int(os.path.exists(kw['save']) and os.path.getsize(kw['save']) > 1000)
            e['status'] = st if st == 'ok' else st + '-' + str(v)
            ev.append(e)
            if rd is None and op == 'open':
                break
    close_all()
    return dict(ev=ev)


def V03(ck):
    inv = ['All', 'Charge', 'Inside', 'Emit']
    small = dict(Vals='{0, 1, 3, 7}' if not ck.thorough else '{-2, 0, 1, 3, 7}', Ns='{2, 3}', Bs='{2, 5}', Qs='{<<3, 1>>, <<1, 2>>}', Depth='1', Mode='"hist"', Rand='FALSE')
    hs = ck.model('MC_BeamPlot', small, inv)
    ck.extra['small_histograms'] = len(hs)
    n = 1500 if ck.thorough else 220
    big = dict(Vals='3..14', Ns='{3, 4, 5, 7}', Bs='{3, 8, 16, 17, 256}', Qs='{<<>>, <<0, 1>>, <<3, 1>>, <<1, 2>>, <<7, 4>>, <<-5, 2>>, <<-1, 1>>}', Depth='6', Rand='TRUE')
    r = ck.model('MC_BeamPlot', dict(big, Mode='"file"'), ['Emit'], simulate=n, depth=8)
    c = ck.model('MC_BeamPlot', dict(big, Mode='"hist"', Qs='{<<3, 1>>, <<1, 2>>, <<7, 4>>, <<-5, 2>>}', Vals='-9..20'), ['All', 'Inside', 'Emit'], simulate=n, depth=8)
    ck.extra['files'] = len(r)
    hs = hs + ck.rng.sample(r, min(len(r), n)) + ck.rng.sample(c, min(len(c), n))
    jobs = [(x['h'], ck.rng.randrange(1 << 30), 1) for x in hs]
    # beams of very many particles
    jobs += [([e for e in x['h'] if e['op'] != 'line'], ck.rng.randrange(1 << 30), 4001) for x in r[:16 if ck.thorough else 4] + c[:16 if ck.thorough else 6]]
    tr = vf.pmap(beams, jobs)
    can = ck.canaries(tr, [(lambda e: e['op'] == 'hist', lambda e: vf.bump(e['bins'][0]['n'])),
                           (lambda e: e['op'] == 'time', lambda e: vf.bump(e['bins'][0]['c'])),
                           (lambda e: e['op'] == 'plane', lambda e: e['image'][0].update(row=127 - e['image'][0]['row'])),
                           (lambda e: e['op'] == 'plane', lambda e: vf.bump(e['right'][0]['n'])),
                           (lambda e: e['op'] == 'length', lambda e: vf.bump(e['below'][0]['n'])),
                           (lambda e: e['op'] == 'length' and e['kind'] == 'current', lambda e: e.update(kind='counts')),
                           (lambda e: e['op'] == 'four', lambda e: vf.bump(e['extents'][3][0])),
                           (lambda e: e['op'] == 'four', lambda e: e['labels'][1].reverse()),
                           (lambda e: e['op'] == 'line', lambda e: e['axes'].reverse()),
                           (lambda e: e['op'] == 'line', lambda e: vf.bump(e['lines'][0][0])),
                           (lambda e: e['op'] == 'line', lambda e: e['names'].append('?'))])
    ck.validate('Trace_BeamPlot', tr, can)


# ------------------------------------------------------------------------------------------------ V04 scatter plots
def whole(a):
    import numpy as np
    out = []
    for v in np.asarray(a, float).ravel():
        out.append(int(round(v)) if math.isfinite(v) and abs(v - round(v)) < 1e-9 and abs(v) < 1e6 else 999999)
    return out


def scatter(job):
    h, seed = job
    import os
    import numpy as np
    import matplotlib.pyplot as plt
    from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
    from rsbeams.rsplot import plot_ptcls
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    g = random.Random(seed)
    ev, c, scale = [], None, 1.
    close_all()

    def pts(a):
        a = np.asarray(a, float)
        return [list(x) for x in zip(whole(a[:, 0] / scale), whole(a[:, 1] / scale))]

    with vf.scratch():
        for e in h:
            e = copy.deepcopy(e)
            op = e['op']
            if op == 'new':
                scale = g.choice([1., 1e-3])
                close_all()

                def make():
                    p = RsPhaseSpace6D(len(e['data'][0]))
                    p.set_array_6d(np.array(e['data'], float) * scale)
                    return RsScatterPS6D(p)
                st, v = vf.call(make)
                if st == 'ok':
                    c = v
            elif op == 'label':
                st, v = vf.call(lambda: c.set_label(e['i'] - 1, e['text']))
            elif op == 'title':
                st, v = vf.call(lambda: c.set_title(e['text']))
            elif op == 'data':
                st, v = vf.call(lambda: c.set_data6d(np.array(e['data'], float) * scale))
            elif op == 'plot':
                e.update(points=[], limits=[], xlabel='', ylabel='', shown='')
                st, v = vf.call(lambda: c.plot_data6d(e['h'] - 1, e['v'] - 1))

                def look():
                    ax = plt.gca()
                    e['points'] = [p for k in ax.collections for p in pts(k.get_offsets())]
                    e['limits'] = [vf.rat(x / scale, 100, 1e-9) for x in list(ax.get_xlim()) + list(ax.get_ylim())]
                    e['xlabel'], e['ylabel'], e['shown'] = ax.get_xlabel(), ax.get_ylabel(), ax.get_title()
                if st == 'ok':
                    st, v = vf.call(look)
                if g.random() < .3 and not any(x['op'] == 'save' for x in h):
                    vf.call(lambda: c.clear_plots())
            elif op == 'save':
                st, v = vf.call(lambda: c.save_plots('a.png'))
                e['saved'] = int(os.path.exists('a.png') and os.path.getsize('a.png') > 1000)
            elif op == 'draw':
                e.update(dots=[], lines=[], xscale='', yscale='')
                scale = 1.
                fig, ax = plt.subplots()
                st, v = vf.call(lambda: plot_ptcls.scatter_contour(e['flag'], e['type'], np.array(e['xs'], float), np.array(e['ys'], float), ax))

                def seen():
                    e['dots'] = [p for k in ax.collections for p in pts(k.get_offsets())]
                    e['lines'] = [pts(np.asarray(l.get_data(), float).T) for l in ax.lines]
                    e['xscale'], e['yscale'] = ax.get_xscale(), ax.get_yscale()
                if st == 'ok':
                    st, v = vf.call(seen)
            elif op in ('contour', 'combo'):
                e.update(levels=[], box=[], counts=[], dots=[])
                fig, ax = plt.subplots()
                scale, got, real = 1., [], ax.contourf
                ax.contourf = lambda *a, **k: (got.append(a), real(*a, **k))[1]
                kw = dict(divs=e['b']) if e['b'] != 10 or g.random() < .5 else {}
                st, v = vf.call(lambda: plot_ptcls.scatter_contour(op, g.choice(['linear', 'log-log']), np.array(e['xs'], float), np.array(e['ys'], float), ax, levels=e['n'], **kw))

                def area():
                    e['levels'] = [vf.rat(x, 200, 1e-9) for x in v.levels]
                    # the area the contours were given (the dots do not reach further)
                    lim = ax.dataLim
                    e['box'] = whole([lim.x0, lim.x1, lim.y0, lim.y1])
                    z = [np.asarray(x) for x in got[-1] if np.ndim(x) == 2] if got else []
                    if len(z) in (1, 3) and z[-1].shape == (e['b'], e['b']):
                        e['counts'] = whole(z[-1])
                    if op == 'combo':
                        for k in ax.collections:
                            if 'Path' in type(k).__name__:
                                e['dots'] += pts(k.get_offsets())
                if st == 'ok':
                    st, v = vf.call(area)
            elif op == 'mesh':
                e.update(zs=[], range=0)
                fig, ax = plt.subplots()
                xs, ys = np.arange(e['nx']) * 2. + 1, np.arange(e['ny']) * .5
                got = []
                real = ax.contourf
                ax.contourf = lambda *a, **k: (got.append(a), real(*a, **k))[1]
                st, v = vf.call(lambda: plot_ptcls.scatter_contour('contour', 'linear', [xs, ys], np.array(e['z'], float), ax, levels=5))

                def show():
                    x, y, z = (np.asarray(k, float) for k in got[-1][:3])
                    e['range'] = int(abs(min(v.levels) - min(e['z'])) < 1e-9 and abs(max(v.levels) - max(e['z'])) < 1e-9)
                    # the value at every mesh point, y by y
                    if x.shape == z.shape:
                        e['zs'] = [int(round(z[np.nonzero((x == a) & (y == b))][0])) for b in ys for a in xs]
                if st == 'ok':
                    st, v = vf.call(show)
            else:
                e['vals'] = []
                f = np.array(e['f'], float)
                f = f.reshape(g.choice([f.shape, (1, -1), (-1, 1)]))
                k = {}
                if e['n'] != 40 or g.random() < .5:
                    k['nLevels'] = e['n']
                if e['mult'] != [11, 10] or g.random() < .5:
                    k['multiplier'] = q(e['mult'])
                st, v = vf.call(lambda: list(plot_ptcls.gen_contour_levels(f, **k)))
                if st == 'ok':
                    e['vals'] = [vf.rat(x, 2000, 1e-9) for x in v]
            e['status'] = st if st == 'ok' else st + '-' + str(v)
            if op in ('new', 'label', 'title', 'data', 'plot', 'save'):
                s2, o = vf.call(lambda: dict(label=[str(c.get_label(i)) for i in range(6)], title=str(c.get_title()), data=[whole(r / scale) for r in np.asarray(c.get_data6d(), float)])) \
                    if c is not None else ('ok', dict(label=[], title='', data=[]))
                if s2 != 'ok':
                    e['status'], o = 'unreadable-' + str(o), dict(label=[], title='', data=[])
                e['obs'] = o
            ev.append(e)
            if op in ('draw', 'contour', 'combo', 'mesh') or len(plt.get_fignums()) > 10:
                close_all()
    close_all()
    return dict(ev=ev)


def V04(ck):
    n = 4000 if ck.thorough else 450
    texts = '{"x", "horizontal position [mm]", "y (mm)", "dp/p0 [%]", "abcdef"}'
    base = dict(Vals='-9..12', Ns='2..5', Texts=texts, Rand='TRUE')
    a = ck.model('MC_Scatter', dict(base, Depth='7', Mode='"plotter"'), ['Covered', 'Six', 'Emit'], simulate=n, depth=9)
    b = ck.model('MC_Scatter', dict(base, Depth='5', Mode='"free"'), ['Symmetric', 'Emit'], simulate=n, depth=7)
    x = ck.model('MC_Scatter', dict(base, Vals='{-2, 1}', Ns='{2}', Texts='{"label with words"}', Depth='3', Mode='"plotter"', Rand='FALSE'), ['Covered', 'Six', 'Emit'])
    ck.extra['short_histories'] = len(x)
    hs = ck.rng.sample(a, min(len(a), n)) + ck.rng.sample(b, min(len(b), n)) + ck.rng.sample(x, min(len(x), 4000 if ck.thorough else 400))
    tr = vf.pmap(scatter, [(v['h'], ck.rng.randrange(1 << 30)) for v in hs])
    can = ck.canaries(tr, [(lambda e: e['op'] == 'plot' and e['h'] != e['v'], lambda e: e['points'][0].reverse() if e['points'][0][0] != e['points'][0][1] else e['points'].pop()),
                           (lambda e: e['op'] == 'plot', lambda e: vf.bump(e['limits'][3])),
                           (lambda e: e['op'] == 'plot', lambda e: e.update(ylabel='?')),
                           (lambda e: e['op'] == 'label', lambda e: e['obs']['label'].__setitem__(e['i'] - 1, '?')),
                           (lambda e: e['op'] == 'draw', lambda e: e['dots'].append([0, 0])),
                           (lambda e: e['op'] == 'draw', lambda e: e['lines'].append([[0, 0]])),
                           (lambda e: e['op'] == 'draw', lambda e: e.update(xscale='log' if e['xscale'] == 'linear' else 'linear')),
                           (lambda e: e['op'] == 'contour', lambda e: vf.bump(e['levels'][1])),
                           (lambda e: e['op'] == 'contour' and e['counts'], lambda e: e['counts'].reverse()),
                           (lambda e: e['op'] == 'contour', lambda e: e['box'].reverse()),
                           (lambda e: e['op'] == 'combo', lambda e: e['dots'].remove([0, 0])),
                           (lambda e: e['op'] == 'mesh', lambda e: e['zs'].__setitem__(0, 99)),
                           (lambda e: e['op'] == 'levels', lambda e: vf.bump(e['vals'][0]))])
    ck.validate('Trace_Scatter', tr, can)
