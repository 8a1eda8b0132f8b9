"""C21: continuous solutions (module Continuous)."""
import math
import random
import copy
import numpy as np
import tlc
import inputs
from lib import pmap, results
from wilson import wcxf
from wilson.run.smeft import SMEFT, rge
from wilson.run.wet import WETrunner
from wilson.util import smeftutil

K = 6
KEYS = ['input', 'generated', 'zero', 'sm', 'complex', 'any']
STEPS = [1, 2, 5, 9]


class World:
    def __init__(self, seed, kind):
        rnd = self.rnd = random.Random(seed)
        rng = np.random.default_rng(seed)
        self.kind = kind
        if kind == 'SMEFT':
            lo, hi = rnd.choice([(91.1876, 1e4), (200, 3000), (50, 1e5)])
        else:
            lo, hi = {'WET': (4.2, 160), 'WET-4': (1.4, 4.2), 'WET-3': (1.2, 1.9)}[kind]
        g = [lo * (hi / lo) ** ((i + rnd.uniform(-.2, .2)) / (K + 1)) for i in range(1, K + 1)]
        if rnd.random() < .3:
            g = [float(round(x, 1)) for x in g]
        elif kind != 'SMEFT' and rnd.random() < .75:
            # scales that nearly agree
            e = 10 ** -rnd.uniform(3, 7)
            g[1], g[3], g[4] = g[2] * (1 - e), g[2] * (1 + e), g[2] * (1 + 2.5 * e)
        self.scale = dict(enumerate(g, 1))
        basis = 'Warsaw' if kind == 'SMEFT' else 'JMS'
        self.keys = list(wcxf.Basis[kind, basis].all_wcs)
        self.sectors = 'all'
        n = rnd.choice([2, 10, None])
        if kind != 'SMEFT' and rnd.random() < .4:
            from wilson.run.wet import definitions
            secs = [s for s in definitions.sectors if s in wcxf.EFT[kind].sectors]
            self.sectors = tuple(rnd.sample(secs, rnd.choice([1, 2, 3])))
        self.d = inputs.values(kind, basis, rng, n=n, mag=1e-9)
        self.par = dict(parameters={'alpha_s': .12, 'm_b': 4.3}, qed_order=rnd.choice([0, 1])) if kind != 'SMEFT' and rnd.random() < .4 else {}
        self.basis = basis
        self.allowed = set(self.keys)
        if self.sectors != 'all':
            self.allowed = {k for s in self.sectors for k in wcxf.Basis[kind, basis].sectors.get(s, {})}

    def runner(self, s):
        wc = inputs.wc(self.kind, self.basis, s, self.d)
        return SMEFT(wc) if self.kind == 'SMEFT' else WETrunner(wc, **self.par)

    def key(self, what):
        rnd = self.rnd
        pool = sorted(self.allowed)
        given = [k for k in self.d if k in self.allowed]
        if what == 'input' and given:
            return rnd.choice(given)
        if what == 'complex':
            c = [k for k in given if np.imag(self.d[k]) != 0]
            if c:
                return rnd.choice(c)
        if what == 'generated' and self.kind == 'SMEFT':
            return rnd.choice([k for k in ('phi', 'phiBox', 'uphi_33', 'dphi_33', 'phiq1_33', 'phiD', 'phil1_11') if k in self.allowed])
        if what == 'zero':
            z = [k for k in pool if k not in self.d]
            if z:
                return rnd.choice(z)
        if what == 'sm' and self.kind == 'SMEFT':
            return rnd.choice(['g', 'gp', 'gs', 'm2', 'Lambda', 'Gu_33', 'Gu_13', 'Gd_33', 'Ge_33'])
        return rnd.choice(pool)


def smeft_dict(C):
    d = dict(smeftutil.arrays2wcxf_nonred(C))
    d.update(smeftutil.arrays2wcxf({k: C[k] for k in smeftutil.dim4_keys}))
    return d


class Replay:
    def __init__(self, w, hist):
        self.w, self.cache = w, {}
        self.a = w.scale[hist[0]['in']]
        self.r = w.runner(self.a)
        self.c0 = copy.deepcopy(self.r.C_in)

    def point(self, x):
        """The solution at scale x by running there."""
        if x in self.cache:
            return self.cache[x]
        w = self.w
        if w.kind == 'SMEFT':
            d = smeft_dict(self.r.C_in if x == self.a else rge.smeft_evolve(self.r.C_in, self.a, x))
        else:
            wc = self.r.run(x, sectors=w.sectors)
            d = wc.dict
        self.cache[x] = d
        return d

    def compare(self, got, x, ends):
        """got: dictionary from the solution at x"""
        w = self.w
        want = self.point(x)
        known = set(w.keys) | ({k for k in got} if w.kind == 'SMEFT' else set())
        if w.kind != 'SMEFT':
            missing = w.allowed - set(got)
            if missing:
                return 'missing', sorted(missing)[:3]
            for k in w.allowed:
                if not abs(got[k] - want.get(k, 0)) <= 1e-12 * abs(want.get(k, 0)):
                    return k, x, got[k], want.get(k, 0)
            return None
        big = max([abs(v) for k, v in self.d_in.items() if k in w.keys] + [1e-30])
        for k in set(want) | w.allowed:
            if k not in got:
                return 'missing', k
            v, i = want.get(k, 0), self.d_in.get(k, 0)
            sm = k not in w.allowed
            if x in ends:
                tol = 1e-11 * max(abs(v), abs(i)) + (1e-13 * big if not sm else 1e-14)
            elif sm:
                tol = 2e-3 * max(abs(v), abs(i)) + (1e-5 if k[0] == 'G' else 0)
            else:
                tol = 3e-3 * max(abs(v), abs(i)) + 2e-3 * big
                # generated coefficients
                if i == 0:
                    tol = 3e-3 * abs(v) + 5e-4 * big
            if not abs(got[k] - v) <= tol:
                return k, x, got[k], v
        return None

    def run(self, hist):
        w, r = self.w, self.r
        if w.kind == 'SMEFT':
            self.d_in = smeft_dict(r.C_in)
        sols = []
        kw = {} if w.kind == 'SMEFT' or w.sectors == 'all' else dict(sectors=w.sectors)
        for n, o in enumerate(hist[1:], 1):
            op = o['op']
            if op == 'make':
                s = r.run_continuous(w.scale[o['to']], **kw)
                if (s.scale_min, s.scale_max) != (w.scale[o['lo']], w.scale[o['hi']]):
                    return n, 'interval', s.scale_min, s.scale_max
                sols.append((s, (w.scale[o['to']], self.a)))
            elif op == 'same':
                try:
                    r.run_continuous(self.a, **kw)
                except ValueError:
                    continue
                return n, 'no error'
            elif op == 'run':
                x = w.scale[o['to']]
                if x == self.a and w.kind == 'SMEFT':
                    continue
                wc = r.run(x, **kw)
                if wc.scale != x or wc.eft != w.kind:
                    return n, 'run', wc.scale, wc.eft
                if w.kind == 'SMEFT':
                    # flavour singlets do not depend on the choice of basis
                    p = self.point(x)
                    for k in w.keys:
                        if '_' not in k and not abs(wc.dict.get(k, 0) - p.get(k, 0)) <= 1e-9 * max([abs(v) for v in self.w.d.values()]):
                            return n, 'run', k, wc.dict.get(k, 0), p.get(k, 0)
            elif op == 'eval':
                s, ends = sols[o['sol'] - 1]
                xs = [w.scale[j] for j in o['at']]
                if o['scalar']:
                    got = [s.fun(xs[0])]
                else:
                    got = s.fun(np.array(xs))
                    if np.shape(got) != (len(xs),):
                        return n, 'shape', np.shape(got)
                if not all(isinstance(g, dict) for g in got):
                    return n, 'type', str(type(got[0]))
                for x, g in zip(xs, got):
                    e = self.compare(g, x, ends)
                    if e:
                        return n, o, e
            elif op == 'plot':
                s, ends = sols[o['sol'] - 1]
                lo, hi = w.scale[o['lo']], w.scale[o['hi']]
                key = w.key(o['key'])
                a = {}
                if o['part'] != 're' or w.rnd.random() < .5:
                    a['part'] = o['part']
                if o['axis'] != 'log' or w.rnd.random() < .5:
                    a['scale'] = o['axis']
                x, y = s.plotdata(key, steps=o['n'], **a)
                want = [lo + (hi - lo) * p / q if o['axis'] == 'linear' else lo * (hi / lo) ** (p / q) for p, q in o['at']]
                if np.shape(x) != (o['n'],) or np.shape(y) != (o['n'],) or np.max(np.abs(x / want - 1)) > 1e-12:
                    return n, 'axis', x, want
                for u, v in zip(x, y):
                    z = s.fun(float(u))[key]
                    z = z.real if o['part'] == 're' else z.imag
                    if not (np.isrealobj(v) and abs(v - z) <= 1e-9 * abs(z)):
                        return n, 'plot', key, u, v, z
        for k, v in self.c0.items():
            if not np.array_equal(v, r.C_in[k]):
                return 'runner changed', k
        if self.r.scale_in != self.a:
            return 'runner changed', 'scale'
        return None


def job(a):
    seed, kind, h = a
    w = World(seed, kind)
    return Replay(w, h).run(h)


def default50(seed):
    """the default is 50 points with logarithmic spacing and the real part"""
    w = World(seed, 'WET-3')
    w.sectors = ('sb',) if False else 'all'
    r = w.runner(w.scale[1])
    s = r.run_continuous(w.scale[K])
    k = w.key('complex')
    x, y = s.plotdata(k)
    x2, y2 = s.plotdata(k, part='re', scale='log', steps=50)
    if len(x) != 50 or not np.allclose(x, x2, rtol=1e-12) or not np.allclose(y, y2, rtol=1e-9, atol=0):
        return k, len(x)
    return None


def run(c):
    c.model(tlc.run('Continuous', 'SPECIFICATION Spec\nCONSTANTS K = 3\n Steps = {1, 2, 4}\n Keys = {"k"}\nINVARIANTS Interval Agree Axis\nCONSTRAINT Bound\n'))
    depth = 8
    q = lambda xs: '{' + ', '.join(f'"{x}"' for x in xs) + '}'
    num = c.n(96, 1600)
    g = tlc.run('ContinuousGen', f'SPECIFICATION GSpec\nCONSTANTS K = {K}\n Steps = {{{", ".join(map(str, STEPS))}}}\n Keys = {q(KEYS)}\n Depth = {depth}\n'
                'INVARIANTS Interval Agree Axis Emit\n', workers=1, simulate=num, depth=depth + 2, seed=c.seed)
    c.model(g)
    hists = tlc.printed(g.out, 'BEH')
    kinds = ['SMEFT', 'SMEFT', 'WET', 'WET-4', 'WET-3', 'SMEFT']
    jobs = [(c.seed * 100003 + i, kinds[i % len(kinds)], h) for i, h in enumerate(hists)]
    for j, e in zip(jobs, results(c, 'history', pmap(job, jobs))):
        c.trace()
        c.sample([j[1], [o['op'] for o in j[2]]])
        if e:
            c.violation('history', dict(kind=j[1], seed=j[0], error=e))
    for e in results(c, 'default', pmap(default50, [c.seed])):
        if e:
            c.violation('default', e)
    c.assumptions.append('SMEFT solutions are in the flavour basis of the input (running to a scale rotates its result); interpolation accurate to 2e-3 of the largest coefficient between the ends, 1e-11 at the ends.')
