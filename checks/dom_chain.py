"""E01: lattices moved between files and memory in one session."""
import copy
import json
import os
import random

import vf
from dom_sirepo import Line, Names, Warp, stubs

TYPES = ['', 'drif', 'quad', 'csbend', 'watch']
PAR = ['', 'volt', 'db', 'rc', 'group']
NAMES = [['q1', 'q2', 'b1', 'd1', 'd2', 'm', 'd10'], ['l', 'k1', 'db', 'rc', 'volt', 'type_1', 'drif'],
         ['a', 'aa', 'aaa', 'b', 'bb', 'bbb', 'c'], ['d.1', 'd1', 'd1.1', 'q.1', 'q1', 'q1.1', 'm']]
LINES = [['cell', 'arc', 'insert'], ['sub_1', 'sub_2', 'sub_3'], ['x', 'y', 'z']]


class Session:
    def __init__(self, nf, ns, d, g):
        self.d, self.g = d, g
        self.slots = [None] * ns
        self.name = dict(enumerate(g.choice(NAMES), 1))
        self.line = dict(enumerate(g.choice(LINES), 2))
        self.ext = g.choice(['.lte', '.json', '', '.txt'])

    def path(self, f):
        return os.path.join(self.d, 'f%d%s' % (f, self.ext))

    def values(self, v):
        r = {} if v['t'] == 4 else dict(l=v['l'] / 1000.)
        r[PAR[v['t']]] = v['k'] / 1000.
        return r

    def defined(self, lat):
        return {n: v for b in lat for n, v in enumerate(b['val'], 1) if v['t']}

    def lte(self, lat):
        g = self.g
        # some values through variables, whose names are used again in the next file
        var = {(n, k): 'v%d' % i for i, (n, k) in enumerate([(n, k) for n, v in self.defined(lat).items() for k in self.values(v) if g.random() < .2])}
        sto = ['%% %r sto %s' % (self.values(self.defined(lat)[n])[k], x) for (n, k), x in var.items()]
        defs = ['%s: %s, %s' % (self.name[n], TYPES[v['t']], ', '.join('%s=%s' % (k, '"%s"' % var[n, k] if (n, k) in var else repr(x)) for k, x in self.values(v).items()))
                for n, v in self.defined(lat).items()]
        lines = ['%s: line=(%s)' % (self.line.get(b, 'top'), ','.join(self.name[it['n']] if it['k'] == 'e' else self.line[it['n']] for it in lat[b - 1]['items']))
                 for b in range(1, len(lat) + 1)]
        g.shuffle(defs)
        text = '\n'.join(sto + defs + lines[::-1]) + '\n'
        return text.upper() if g.random() < .4 else text

    def json(self, lat):
        defs = self.defined(lat)
        cache, els = {}, []
        for n, v in defs.items():
            d = dict(_id=n, name=self.name[n], type=TYPES[v['t']].upper())
            for k, x in self.values(v).items():
                d[k] = x
                if self.g.random() < .2:
                    d[k] = 'v%d' % len(cache)
                    cache[d[k]] = x
            els.append(d)
        lines = [dict(id=100 + b, name=self.line.get(b, 'top'), items=[it['n'] if it['k'] == 'e' else 100 + it['n'] for it in lat[b - 1]['items']])
                 for b in range(1, len(lat) + 1)]
        self.g.shuffle(els)
        self.g.shuffle(lines)
        return json.dumps(dict(models=dict(beamlines=lines, elements=els, rpnCache=cache, rpnVariables=[], commands=[])))

    def do(self, e):
        from rsbeams.rslattice.Beamline import StructuredBeamline
        from rsbeams.rslattice.lte_parser import BeamlineParser
        from rsbeams.rslattice.templates import lattice_importer as li
        op = e['op']
        if op == 'write':
            text = self.lte(e['lat']) if e['kind'] == 'lte' else self.json(e['lat'])
            with open(self.path(e['f']), 'w') as f:
                f.write(text)
            self.kinds[e['f']] = e['kind']
            return
        path = self.path(e['f']) if 'f' in e else ''
        if op == 'import':
            self.slots[e['s'] - 1] = BeamlineParser(path, 'top')() if self.kinds[e['f']] == 'lte' else li.parse_json(path, 'top')
        elif op == 'load':
            b = StructuredBeamline('top')
            b.load_beamline(path, 'elegant')
            self.slots[e['s'] - 1] = b
        elif op == 'save':
            self.slots[e['s'] - 1].save_beamline(path)
        elif op == 'edit':
            box = self.slots[e['s'] - 1]
            i, j = e['at']
            if i:
                box = box.sequence[i - 1]
            el = box.sequence[j - 1]
            key = 'l' if e['p'] == 'l' else PAR[TYPES.index(el.type)]
            el.parameters[key.upper() if self.g.random() < .5 else key] = e['x'] / 1000.
        elif op == 'append':
            self.slots[e['s'] - 1].add_element(self.name[e['n']], TYPES[e['v']['t']], self.values(e['v']))
        elif op == 'export':
            stubs()
            from rsbeams.rslattice import formatted_writer as fw
            fw.WarpWriter(self.slots[e['s'] - 1], 'elegant').write_file(path)
            with open(path) as f:
                e['out'] = self.warp(f.read())

    kinds = {}

    def milli(self, v):
        r = vf.rat(v, 1000, 1e-12)
        return r[0] * (1000 // r[1]) if r[2] and r[1] and 1000 % r[1] == 0 else -777

    def index(self, name):
        return next((n for n, x in self.name.items() if x == str(name).lower()), -1)

    def listing(self, b):
        res = []
        for el in b.get_beamline_elements() if b is not None else []:
            t = TYPES.index(el.type) if el.type in TYPES else -1
            res.append(dict(n=self.index(el.name), v=dict(t=t, l=self.milli(el.parameters.get('l', 0)), k=self.milli(el.parameters.get(PAR[t], -1)))))
        return res

    def warp(self, text):
        ns = Names()
        exec(text, dict(), ns)
        top = ns.log[-1][1]
        ids = {id(v): k for k, v in ns.log[:-1]}
        inv = {''.join(c if c.isalnum() else '_' for c in x).upper(): n for n, x in self.name.items()}
        res = []
        for o in top.s if isinstance(top, Line) else [top]:
            t = dict(Drft=1, Quad=2, Bend=3).get(type(o).__name__, -1)
            res.append(dict(n=inv.get(ids.get(id(o), '').rstrip('_'), -1),
                            v=dict(t=t, l=self.milli(o.k.get('l', -1)), k=self.milli(o.k.get(PAR[t], -1)) if t > 1 else 0)))
        return res


def run(job):
    h, nf, ns, seed = job
    g = random.Random(seed)
    ev = []
    with vf.scratch() as d:
        s = Session(nf, ns, d, g)
        s.kinds = {}
        for e in h:
            e = copy.deepcopy(e)
            if e['op'] == 'export':
                e['out'] = []
            with vf.quiet():
                st, _ = vf.call(s.do, e)
                look = [vf.call(s.listing, b) for b in s.slots]
                tot = [vf.call(lambda: s.milli(b.length) if b is not None else 0) for b in s.slots]
            e['status'] = st
            e['look'] = [x[1] if x[0] == 'ok' else [dict(n=-9)] for x in look]
            e['tot'] = [x[1] if x[0] == 'ok' else -9 for x in tot]
            ev.append(e)
    return dict(nf=nf, ns=ns, ev=ev)


def E01(ck):
    inv = ['Kept', 'Texts', 'Emit']
    small = ck.model('MC_Chain', dict(NF='2', NS='2', NN='3', Top='{1, 2}', Subs='<<{3}>>', Kinds='{"lte", "json"}', MaxItems='1',
                                      Ls='{250}', Ks='{7}', Depth='4' if ck.thorough else '3', Rand='FALSE'), inv, properties=['Local'])
    n = 4000 if ck.thorough else 500
    c = dict(NF='3', NS='3', NN='7', Top='{1, 2, 3}', Subs='<<{4, 5}, {6, 7}>>', Kinds='{"lte", "json"}', MaxItems='6',
             Ls='{0, 100, 125, 250, 1500, 20001}', Ks='{-500, 0, 7, 1250}', Depth='14', Rand='TRUE')
    hs = ck.model('MC_Chain', c, ['Kept', 'Emit'], simulate=n, depth=15)
    hs = ck.rng.sample(hs, min(len(hs), n))
    # one file for everything
    c.update(NF='1', NS='2', NN='4', Top='{1, 2}', Subs='<<{3}, {4}>>', MaxItems='3', Ls='{100, 200, 300, 1500, 2500}', Ks='{1250, 2250}')
    few = ck.model('MC_Chain', c, ['Kept', 'Emit'], simulate=n, depth=15)
    few = ck.rng.sample(few, min(len(few), n))
    small = ck.rng.sample(small, min(len(small), 3000 if ck.thorough else 400))
    tr = vf.pmap(run, [(x['h'], 2, 2, ck.rng.randrange(1 << 30)) for x in small] + [(x['h'], 3, 3, ck.rng.randrange(1 << 30)) for x in hs]
                 + [(x['h'], 1, 2, ck.rng.randrange(1 << 30)) for x in few])
    some = lambda e: any(e['look'])
    first = lambda e: next(x for x in e['look'] if x)[0]
    can = ck.canaries(tr, [(some, lambda e: first(e)['v'].update(l=first(e)['v']['l'] + 1)),
                           (some, lambda e: first(e).update(n=first(e)['n'] % 3 + 1)),
                           (lambda e: e['look'] != e['look'][::-1], lambda e: e['look'].reverse()),
                           (lambda e: True, lambda e: e['tot'].__setitem__(0, e['tot'][0] + 1)),
                           (lambda e: e['op'] == 'export', lambda e: e['out'].pop()),
                           (lambda e: e['op'] == 'edit' and some(e), lambda e: first(e)['v'].update(k=first(e)['v']['k'] + 1))])
    ck.validate('Trace_Chain', tr, can)
