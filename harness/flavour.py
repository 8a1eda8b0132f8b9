"""C12 and C13: replay of paths between representations (module Flavour)."""
import copy
import random
import numpy as np
import tlc
from lib import pmap, results, close
from wilson import wcxf
from wilson.util import smeftutil, wetutil, wet_jms

TOL = 1e-12


def tables():
    r = tlc.run('Flavour', 'SPECIFICATION Spec\nCONSTANTS Lib = "smeft"\n Depth = 5\nINVARIANT TypeOK\nPOSTCONDITION Out\n', expect_out=True)
    d = r.data
    T = {c: {e['idx']: e for e in t} for c, t in d['tables'].items()}
    P8 = {e['from']: {x['idx']: x['six'] / 6 for x in e['to']} for e in d['table8']}
    ops = {}
    for lib in ('SMEFT', 'WET'):
        ops[lib] = {o: c[1:] for c, os in d[lib].items() for o in os}
    return r, T, P8, ops


def paths(c, lib, num, depth, seed):
    r = tlc.run('Flavour', f'SPECIFICATION Spec\nCONSTANTS Lib = "{lib}"\n Depth = {depth}\nINVARIANTS TypeOK Emit\n',
                workers=1, simulate=num, depth=depth + 3, seed=seed)
    c.model(r)
    return tlc.printed(r.out, 'BEH')


def code(ind):
    return int(''.join(str(i + 1) for i in ind))


class World:
    """The library's functions and what the specification says they give, for
    one set of coefficients."""
    def __init__(self, T, P8, ops, eft, basis, util, rnd):
        self.T, self.P8, self.ops, self.util, self.rnd = T, P8, ops[eft], util, rnd
        self.eft, self.basis = eft, basis
        self.keys = list(wcxf.Basis[eft, basis].all_wcs)
        self.shape = {}
        for k in self.keys:
            n, _, i = k.partition('_')
            if i:
                sh = self.shape.setdefault(n, [0] * len(i))
                for p, ch in enumerate(i):
                    sh[p] = max(sh[p], int(ch))
            else:
                self.shape[n] = ()
        for n, sh in self.shape.items():
            if self.ops.get(n) == '71':
                sh[0] = sh[1]
        self.shape = {n: tuple(s) for n, s in self.shape.items()}
        self.redundant = {}
        for n, sh in self.shape.items():
            c = self.ops.get(n)
            if sh and c != '8':
                for ind in np.ndindex(sh):
                    e = T[c][code(ind)]
                    if not e['zero']:
                        self.redundant.setdefault((n, e['rep']), []).append(ind)

    def real(self, key):
        n, _, i = key.partition('_')
        c = self.ops[n]
        return c == '0' or (c != '8' and i != '' and self.T[c][int(i)]['real'])

    def draw(self, frac):
        rnd = self.rnd
        d = {}
        # sizes in GeV^-2: one for each operator, or one for all
        sizes = rnd.choice([[1], [1], [1e-9], [1e-32], [1, 1e-9, 1e-24, 1e-40]])
        self.mag = {n: rnd.choice(sizes) for n in self.shape}
        for k in self.keys:
            if rnd.random() < frac:
                v = rnd.uniform(-1, 1) or .5
                if not self.real(k):
                    v = complex(v, rnd.uniform(-1, 1))
                    if rnd.random() < .1:
                        v = complex(0, v.imag)
                elif rnd.random() < .1:
                    v = rnd.choice([1, -2])
                d[k] = v * self.mag[k.partition('_')[0]]
        return d

    # expected representations of D
    def arrays(self, D, mode, full=True, pad=False):
        """mode: 'A' raw, 'S' symmetrized and averaged, 'Y' symmetrized."""
        out = {}
        present = {k.partition('_')[0] for k in D}
        for n, sh in self.shape.items():
            if not full and n not in present:
                continue
            c = self.ops[n]
            if c == '0':
                out[n] = D.get(n, 0)
                continue
            a = np.zeros(tuple(3 for _ in sh) if pad else sh, dtype=complex)
            for ind in np.ndindex(sh):
                x = code(ind)
                if mode == 'A':
                    a[ind] = D.get(f'{n}_{x}', 0)
                elif c == '8':
                    continue
                else:
                    e = self.T[c][x]
                    if e['zero']:
                        continue
                    v = complex(D.get(f"{n}_{e['rep']}", 0))
                    v = e['sign'] * (v.conjugate() if e['conj'] else v)
                    a[ind] = v / e['mult'] if mode == 'S' else v
            if c == '8' and mode == 'S':
                for k, v in D.items():
                    m, _, i = k.partition('_')
                    if m == n:
                        for y, w in self.P8[int(i[:3])].items():
                            a[tuple(int(ch) - 1 for ch in str(y)) + (int(i[3]) - 1,)] += w * v
            if c == '8' and mode == 'Y':
                a = None           # only a relation is known
            out[n] = a
        return out

    def expect(self, tag, D):
        if tag == 'A':
            return self.arrays(D, 'A', full=False)
        if tag == 'PA':
            return self.arrays(D, 'A', full=False, pad=True)
        if tag == 's':
            return self.arrays(D, 'S', full=False)
        if tag == 'S':
            return self.arrays(D, 'S')
        if tag == 'PS':
            return self.arrays(D, 'S', pad=True)
        if tag in ('Y', 'U'):
            return self.arrays(D, 'Y', full=False)
        if tag in ('J', 'K'):
            return self.arrays(D, 'Y' if tag == 'J' else 'S')
        if tag == 'D':
            return {k: v for k, v in D.items() if v != 0}
        if tag in ('F', 'UF'):
            out = {}
            for n, a in self.arrays(D, 'S' if tag == 'F' else 'Y', full=tag == 'F').items():
                if a is None:
                    continue
                if np.shape(a) == ():
                    out[n] = a
                else:
                    for ind in np.ndindex(a.shape):
                        out[f'{n}_{code(ind)}'] = a[ind]
            return out
        return None

    # the functions
    def call(self, f, x, D):
        u, rnd = self.util, self.rnd
        if f == 'C_dict2array':
            self.extra = {k: v for k, v in self.dim4.items()}
            return u.C_dict2array({**x, **self.dim4})
        if f == 'C_array2dict':
            r = u.C_array2dict(x)
            for k, v in self.dim4.items():
                if not np.array_equal(r[k], v):
                    raise Mismatch(k, r[k], v)
            return {k: v for k, v in r.items() if k not in self.dim4}
        if f == 'rename':
            return self.rename(x, D)
        if f == 'extract':
            out = {}
            for k in D:
                n, _, i = k.partition('_')
                c = self.ops[n]
                out[k] = x[n] if c == '0' else x[n][tuple(int(ch) - 1 for ch in i)] * self.T[c][int(i)]['mult']
            return {k: v for k, v in out.items() if v != 0}
        if f in ('JMS_to_array', 'symmetrize_JMS_dict', 'scale_dict_wet', 'unscale_dict_wet'):
            return getattr(wet_jms, f)(x)
        return getattr(u, f)(x)

    def rename(self, x, D):
        """Some redundant name for every coefficient."""
        out = {}
        for k, v in D.items():
            n, _, i = k.partition('_')
            if v == 0 or not i or self.ops[n] in ('1', '3'):
                if v != 0:
                    out[k] = v
                continue
            ind = self.rnd.choice(self.redundant[n, int(i)])
            e = self.T[self.ops[n]][code(ind)]
            w = complex(v)
            w = e['sign'] * (w.conjugate() if e['conj'] else w)
            out[f'{n}_{code(ind)}'] = w
        return out

    def init_dim4(self):
        nr = np.random.default_rng(self.rnd.randrange(10**9))
        if self.eft == 'SMEFT':
            sh = dict(g=1, gp=1, gs=1, Lambda=1, m2=1, Gu=(3, 3), Gd=(3, 3), Ge=(3, 3))
        else:
            sh = dict(e=1, gs=1, Md=(3, 3), Mu=(2, 2), Me=(3, 3), Mnu=(3, 3))
        self.dim4 = {k: (nr.random() if s == 1 else nr.random(s) + 1j * nr.random(s)) for k, s in sh.items()}


class Mismatch(Exception):
    pass


def same(got, want, mag, nan_outside=False):
    """First difference between two representations."""
    if set(got) != set(want):
        return 'operators', sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]
    for k, w in want.items():
        g = got[k]
        if w is None:
            continue
        if np.shape(w) != () and nan_outside:
            full = np.shape(g)
            if len(full) != len(np.shape(w)) or any(a < b for a, b in zip(full, np.shape(w))):
                return k, 'shape', full
            g = np.asarray(g)[tuple(slice(0, n) for n in np.shape(w))]
        if np.shape(g) not in (np.shape(w),) and not (np.shape(w) == () and np.shape(g) == (1,)):
            return k, 'shape', np.shape(g), np.shape(w)
        d = np.abs(np.asarray(g, dtype=complex) - w)
        if not np.all(d <= TOL * (mag.get(k.partition('_')[0], 1) + np.abs(w))):
            ind = np.unravel_index(np.nanargmax(np.where(np.isnan(d), 1e99, d)), d.shape) if d.shape else ()
            return k, code(ind) if ind else '', complex(np.asarray(g, dtype=complex)[ind]), complex(np.asarray(w)[ind])
    return None


def relation8(a):
    """p r s: a_prst + a_rpst = a_sprt + a_srpt"""
    return np.abs(a + np.einsum('rpst->prst', a) - np.einsum('sprt->prst', a) - np.einsum('srpt->prst', a)).max()


def differs(a, b):
    if isinstance(a, dict):
        return set(a) != set(b) or any(differs(a[k], b[k]) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape != b.shape or not np.array_equal(a, b, equal_nan=np.issubdtype(a.dtype, np.inexact))


_tables = None


def replay(args):
    path, eft, basis, seed = args
    T, P8, ops = _tables
    rnd = random.Random(seed)
    util = smeftutil if eft == 'SMEFT' else wetutil
    w = World(T, P8, ops, eft, basis, util, rnd)
    w.init_dim4()
    D = w.draw(rnd.choice([1., 1., .3, .02]))
    x, tag = dict(D), path[0]
    bad = []
    for n in range(1, len(path), 2):
        f, nxt = path[n], path[n + 1]
        info = dict(path=path[:n + 2], eft=eft, seed=seed)
        before = copy.deepcopy(x)
        try:
            y = w.call(f, x, D)
        except Mismatch as e:
            return bad + [(f'{f}: value', dict(info, diff=e.args))]
        except Exception as e:
            return bad + [(f'{f}: exception', dict(info, err=repr(e)))]
        if differs(x, before):
            bad.append((f'{f}: input modified', info))
        want = w.expect(nxt, D)
        if want is not None:
            got = y
            if nxt in ('UF',):
                got = {k: v for k, v in y.items() if ops[eft][k.partition('_')[0]] != '8'}
            if nxt == 'D':          # a coefficient that is missing is zero
                got = {**{k: 0 for k in want}, **{k: v for k, v in got.items() if k in want or not abs(v) < TOL * w.mag.get(k.partition('_')[0], 1)}}
            d = same(got, want, w.mag, nan_outside=nxt in ('J', 'K'))
            if d:
                return bad + [(f'{f}: value', dict(info, diff=d))]
        if nxt in ('Y', 'S', 's') and 'qqql' in y and relation8(np.asarray(y['qqql'])) > TOL * w.mag['qqql']:
            return bad + [(f'{f}: symmetry of qqql', info)]
        if nxt in ('Y', 'U') and 'qqql' in y:
            for k, v in D.items():
                m, _, i = k.partition('_')
                if m == 'qqql' and not close(y[m][tuple(int(ch) - 1 for ch in i)], v, TOL, TOL * w.mag['qqql']):
                    return bad + [(f'{f}: value', dict(info, key=k))]
        x, tag = y, nxt
    return bad


def run_lib(c, lib, worlds, num, depth):
    global _tables
    r, T, P8, ops = tables()
    c.model(r, 'paths')
    _tables = T, P8, ops
    # the specification covers every operator of the bases, and the bases
    # contain exactly one name for every independent coefficient
    for eft, basis in worlds:
        w = World(T, P8, ops, eft, basis, smeftutil if eft == 'SMEFT' else wetutil, random.Random(0))
        reps = {}
        for k in w.keys:
            n, _, i = k.partition('_')
            if n not in w.ops:
                raise RuntimeError('operator unknown to the specification: ' + n)
            cl = w.ops[n]
            if i and cl != '8' and (T[cl][int(i)]['zero'] or T[cl][int(i)]['rep'] != int(i)):
                raise RuntimeError('not a representative: ' + k)
        for (n, rep) in w.redundant:
            if f'{n}_{rep}' not in set(w.keys):
                raise RuntimeError('missing in the basis: %s_%d' % (n, rep))
    jobs = []
    for eft, basis in worlds:
        ps = paths(c, lib, num, depth, c.seed * 13 + len(eft))
        jobs += [(p, eft, basis, c.seed * 1000 + i) for i, p in enumerate(ps)]
    for x in results(c, lib, pmap(replay, jobs)):
        for k, d in x or []:
            c.violation(k, d)
    c.trace(len(jobs))
    c.count('function_calls', sum((len(j[0]) - 1) // 2 for j in jobs))
    c.sample(jobs[0][0])
    c.sample(jobs[-1][0])
