"""C18: matching of SMEFT onto WET (modules MatchFlow, Charges)."""
import math
import random
import numpy as np
import ckmutil.ckm
import tlc
import ref
import inputs
import c15
import paths
from lib import Violation, pmap, results
from c14 import run_ref
from wetsym import Sym
from wilsonlib import tla
from wilson import wcxf
from wilson.parameters import p as DEFAULT
from wilson.run.smeft import smpar
from wilson.run.wet import WETrunner
from wilson.util import smeftutil, qcd

SYM = None
JMS = set(wcxf.Basis['WET', 'JMS'].all_wcs)
CHARGES = None
EPS = 1e-9
HEAVY = dict(m_e=20., m_mu=33., m_tau=50., m_u=7., m_c=15., m_d=11., m_s=26., m_b=41.)
PARS = [HEAVY, {**HEAVY, 'alpha_s': 0.1235, 'alpha_e': 1 / 120., 'Vus': 0.219, 'Vub': 4.1e-3, 'Vcb': 0.0405, 'gamma': 0.9, 'GF': 1.1e-5, 'm_W': 79.1, 'm_c': 3.},
        {}, {'m_e': 1.2, 'gamma': 2.1, 'Vcb': 0.1, 'Vub': 0.03, 'm_W': 82.}]
SCALES = [91.1876, 160., 78.]
MOVES = dict(match=7, tr=5, lin=3, cp=2, lab=2, pack=1, new=2)
NONFLAT = ('G', 'Gtilde')


def match(basis, to, scale, d, par):
    w = inputs.wc('SMEFT', basis, scale, d)
    before = list(w.dict.items())
    r = w.match('WET', to, **({'parameters': dict(par)} if par else {}))
    if (r.eft, r.basis, r.scale) != ('WET', to, scale):
        raise Violation(('wrong type', r.eft, r.basis, r.scale))
    if list(w.dict.items()) != before:
        raise Violation('input changed')
    out = r.dict
    bad = set(out) - set(wcxf.Basis['WET', to].all_wcs)
    if bad:
        raise Violation(('coefficients that do not exist in the basis', to, sorted(bad)[:5]))
    return out


def response(basis, to, scale, d, par):
    """Derivative of the matching at zero in the direction d."""
    eps = EPS / max([abs(v) for v in d.values()] + [1])
    a, b = (match(basis, to, scale, {k: s * v for k, v in d.items()}, par) for s in (eps, -eps))
    return {k: (a.get(k, 0) - b.get(k, 0)) / (2 * eps) for k in set(a) | set(b)}


# -- worlds ----------------------------------------------------------------------
ONE = np.eye(3)
P12 = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.]])


def arr(d):
    return smeftutil.wcxf2arrays_symmetrized(d)


def dic(C):
    d = smeftutil.arrays2wcxf_nonred({k: np.array(v) for k, v in C.items() if k in smeftutil.WC_keys_0f + smeftutil.WC_keys_2f + smeftutil.WC_keys_4f})
    keys = wcxf.Basis['SMEFT', 'Warsaw'].all_wcs
    return {k: v for k, v in d.items() if k in keys}


def world(par, cp, lab):
    P = {**smpar.p, **par}
    if lab:
        par = {**par, 'm_e': P['m_mu'], 'm_mu': P['m_e']}
    if cp:
        g = paths.cp_params({k: P[k] for k in ('Vus', 'Vub', 'Vcb', 'gamma')})
        par = {**par, 'gamma': g['gamma']}
    return par


def conjugate(eft, d):
    return SYM.cp(d) if eft == 'WET' else dic(c15.cp(arr(d)))


def exchange(eft, d):
    if eft == 'WET':
        return SYM.relabel(d, ((1, 2, 3), (1, 2, 3), (2, 1, 3), (2, 1, 3)))
    return dic(c15.rotate(arr(d), dict(q=ONE, u=ONE, d=ONE, l=P12, e=P12)))


# -- histories ---------------------------------------------------------------------
def atoms(seed):
    out = {}
    for basis in ('Warsaw', 'Warsaw up'):
        rng = np.random.default_rng([seed, len(basis), 18])
        keys = [k for k in wcxf.Basis['SMEFT', basis].all_wcs if not k.startswith('llphiphi')]
        names = sorted({k.split('_')[0] for k in keys})
        for n, ks in enumerate((keys, list(rng.choice(keys, 40, replace=False)), list(rng.choice(keys, 2, replace=False)),
                                *[[k for k in keys if k.split('_')[0] == str(rng.choice(names))] for _ in range(3)])):
            d = inputs.values('SMEFT', basis, rng, keys=[str(k) for k in ks], mag=1.)
            out[f'{basis.replace(" ", "_")}_{n}'] = (basis, d)
    return out


def histories(c, at, num, depth, seed):
    body = f'MC_Atoms == {tla({k: v[0] for k, v in at.items()})}\nMC_Moves == {tla(MOVES)}\n'
    r = tlc.run('MC', 'SPECIFICATION GSpec\nCONSTANTS\n Atoms <- MC_Atoms\n Moves <- MC_Moves\n Regs = {1,2,3}\n MaxWord = 3\n Orders = {0,1}\n'
                f' Depth = {depth}\nINVARIANTS Emit Typed\n',
                files={'MC.tla': tlc.model('MC', body, 'MatchFlowGen')}, simulate=num, depth=6 * depth, seed=seed, workers=1)
    c.model(r)
    hs = [h for h in tlc.printed(r.out, 'BEH') if any(e['k'] == 'match' for e in h)]
    if len(hs) < num // 3:
        raise RuntimeError(f'only {len(hs)} of {num} histories')
    return hs


def order(par, o, rnd):
    """Loop terms exactly for loop order 1."""
    if o == 1:
        return {**par, 'loop_order': 1}
    return rnd.choice([par, {**par, 'loop_order': 0}])


def replay(args):
    hist, at, scale, par, seed = args
    rnd = random.Random(seed)
    reg, out = {}, []
    for e in hist:
        k, o = e['k'], e['out']
        W = world(par, o['cp'], o['lab'])
        if k == 'new':
            d = dict(at[e['atom']][1])
        elif k == 'lin':
            p, q = reg[e['p']][0], reg[e['q']][0]
            d = {x: e['ca'] * p.get(x, 0) + e['cb'] * q.get(x, 0) for x in set(p) | set(q)}
        else:
            q, b = reg[e['q']]
            if k == 'tr':
                d = paths.translate(o['eft'], b, e['b'], scale, q, {**DEFAULT, **smpar.p, **W} if o['eft'] == 'SMEFT' else W)
            elif k == 'match':
                d = response(b, e['b'], scale, q, order(W, e['o'], rnd))
            elif k == 'cp':
                d = conjugate(o['eft'], q)
            elif k == 'lab':
                d = exchange(o['eft'], q)
            elif k == 'pack':
                d = paths.repack(q, o['eft'], o['basis'], scale, rnd)
        reg[e['r']] = (d, o['basis'])
        out.append(d)
    return out


def precision(basis, scale, par, coefs):
    """Precision of linear responses: 2e-10 in JMS."""
    if basis == 'JMS':
        return lambda k: 2e-10 * coefs
    key = basis, scale, PARS.index(par)
    if key not in FACTORS:
        FACTORS[key] = {}
        for n in range(3):
            d = inputs.values('WET', 'JMS', np.random.default_rng(n), mag=1.)
            for k, v in paths.translate('WET', 'JMS', basis, scale, d, par).items():
                FACTORS[key][k] = max(FACTORS[key].get(k, 0), abs(v))
    return lambda k: 1e-9 * coefs * FACTORS[key].get(k, 0)


FACTORS = {}


def matched(args):
    """An atom matched to JMS from the Warsaw up basis, in the first world."""
    basis, d, o, scale, par = args
    if basis != 'Warsaw up':
        d = paths.translate('SMEFT', basis, 'Warsaw up', scale, d, {**DEFAULT, **smpar.p, **par})
    return response('Warsaw up', 'JMS', scale, d, {**par, 'loop_order': 1} if o else par)


def canonical(args):
    d, eft, cp, lab, word, to, scale, par = args
    W = world(par, cp, lab)
    if cp:
        d = conjugate(eft, d)
    if lab:
        d = exchange(eft, d)
    at = 'JMS'
    for b in word:
        if at != 'JMS' and b != at:
            d, at = paths.translate(eft, at, 'JMS', scale, d, W), 'JMS'
        d, at = paths.translate(eft, at, b, scale, d, W), b
    if at != to:
        d = paths.translate(eft, at, to, scale, d, W)
    return paths.keep(eft, to, d)


def flows(c):
    at = atoms(c.seed)
    hs = histories(c, at, c.n(70, 700), 12, c.seed * 10 + 1)
    par = [PARS[n % 4] for n in range(len(hs))]
    sc = [SCALES[n // 4 % 3] for n in range(len(hs))]
    c.count('histories', len(hs))
    outs = results(c, 'histories', pmap(replay, [(h, at, s, p, n) for n, (h, s, p) in enumerate(zip(hs, sc, par))]))
    first, need = {}, {}
    for h, s, p in zip(hs, sc, par):
        for e in h:
            o = e['out']
            if o['eft'] != 'WET':
                continue
            for t in o['t']:
                f = (t['atom'], t['o'], s, PARS.index(p))
                first[f] = (*at[t['atom']], t['o'], s, p)
                need[f, o['cp'], o['lab'], tuple(t['w']), o['basis']] = (s, p)
    base = dict(zip(first, results(c, 'matching', pmap(matched, list(first.values())))))
    keys = [k for k in need if base[k[0]] is not None]
    vals = dict(zip(keys, results(c, 'direct', pmap(canonical, [(base[k[0]], 'WET', *k[1:], *need[k]) for k in keys]))))
    for h, out, s, p in zip(hs, outs, sc, par):
        if out is None:
            continue
        for i, (e, got) in enumerate(zip(h, out)):
            o = e['out']
            if o['eft'] != 'WET':
                continue
            V = [vals.get(((t['atom'], t['o'], s, PARS.index(p)), o['cp'], o['lab'], tuple(t['w']), o['basis'])) for t in o['t']]
            if any(v is None for v in V):
                break
            want, size = {}, {}
            for t, v in zip(o['t'], V):
                for k, x in v.items():
                    want[k] = want.get(k, 0) + t['coef'] * x
                    size[k] = size.get(k, 0) + abs(x) * (abs(t['coef']) or 9)
            bad = differ(o['basis'], got, want, size, floor=precision(o['basis'], s, p, sum(abs(t['coef']) or 9 for t in o['t'])))
            c.count('comparisons')
            if bad:
                c.violation('matching', dict(diff=bad, basis=o['basis'], terms=o['t'], cp=o['cp'], lab=o['lab'], step=i, scale=s, parameters=p,
                                             history=[{k: v for k, v in x.items() if k != 'out'} for x in h[:i + 1]]))
                break
        else:
            c.trace()
    c.sample([e for e in hs[0][:6]])


def differ(basis, got, want, size, rtol=2e-7, atol=3e-9, floor=None):
    """Differences relative to what entered; floor: precision of linear
    responses."""
    floor = floor or (lambda k: 0)
    so = paths.sector_of('WET', basis)
    mag = {}
    top = max(size.values(), default=0)
    for k, v in size.items():
        mag[so.get(k)] = max(mag.get(so.get(k), 0), v)
    bad = []
    for k in set(got) | set(want):
        x, y = got.get(k, 0), want.get(k, 0)
        r = abs(x - y) / max(rtol * max(abs(x), abs(y)) + atol * mag.get(so.get(k), 0) + 1e-12 * top + floor(k), 1e-300)
        if not r <= 1:
            bad.append((r, k, x, y))
    return [b[1:] for b in sorted(bad, key=lambda b: -b[0])[:4]]


# -- charges, and quark families when the CKM matrix is trivial ------------------------
def charge(key, table, families):
    n, _, idx = key.partition('_')
    L, Q = [0, 0, 0], [0, 0, 0]
    for f, j in zip(table[n], idx):
        (Q if f['q'] else L)[int(j) - 1] += f['s']
    v = tuple(L) + (tuple(Q) if families else (sum(Q),))
    return max(v, tuple(-x for x in v))


def conserve(args):
    """All operators of one charge; returns what came out with others."""
    basis, keys, q, families, seed, par, scale = args
    rng = np.random.default_rng([seed, abs(hash(q)) % 1000])
    d = inputs.values('SMEFT', basis, rng, keys=keys, mag=1.)
    got = response(basis, 'JMS', scale, d, par)
    top = max([abs(v) for v in got.values()], default=0)
    return [(k, v) for k, v in got.items() if abs(v) > 1e-9 * max(top, 1) and charge(k, CHARGES['wet'], families) != q][:4], top


def swap(args):
    """Exchange of the first two generations of quarks, trivial CKM matrix."""
    basis, seed, par, scale = args
    rng = np.random.default_rng([seed, 12])
    d = dic(c15.coefficients(rng))
    e = dic(c15.rotate(arr(d), dict(q=P12, u=P12, d=P12, l=ONE, e=ONE)))
    P = {**smpar.p, **par}
    x = response(basis, 'JMS', scale, d, par)
    y = response(basis, 'JMS', scale, e, {**par, 'm_u': P['m_c'], 'm_c': P['m_u'], 'm_d': P['m_s'], 'm_s': P['m_d']})
    x = SYM.relabel(x, ((2, 1, 3), (2, 1, 3), (1, 2, 3), (1, 2, 3)))
    return differ('JMS', y, x, {k: abs(v) for k, v in x.items()}, 1e-6, 1e-8, lambda k: 1e-9)


FLAT = dict(Vus=1e-13, Vub=1e-13, Vcb=1e-13)


def symmetries(c):
    jobs = []
    for fam in (False, True):
        for basis in ('Warsaw', 'Warsaw up'):
            by = {}
            for k in wcxf.Basis['SMEFT', basis].all_wcs:
                if not k.startswith('llphiphi'):
                    by.setdefault(charge(k, CHARGES['smeft'], fam), []).append(k)
            qs = sorted(by)
            rnd = random.Random(c.seed)
            if c.tier == 'quick':
                qs = rnd.sample(qs, min(len(qs), 12))
            for q in qs:
                jobs.append((basis, by[q], q, fam, c.seed, {**(HEAVY if rnd.random() < .7 else {}), **(FLAT if fam else {}), 'loop_order': rnd.choice([0, 1, 1])}, rnd.choice(SCALES)))
    for j, r in zip(jobs, results(c, 'charges', pmap(conserve, jobs))):
        if r is None:
            continue
        c.count('charges')
        if r[0]:
            c.violation('charges', dict(diff=r[0], charge=j[2], basis=j[0], parameters=j[5], operators=sorted({k.split('_')[0] for k in j[1]})))
    jobs = [(b, c.seed + n, {**HEAVY, **FLAT, 'loop_order': lo}, SCALES[n % 3]) for b in ('Warsaw', 'Warsaw up') for lo in (0, 1) for n in range(c.n(1, 5))]
    for j, r in zip(jobs, results(c, 'quark generations', pmap(swap, jobs))):
        c.count('exchanges of quark generations')
        if r:
            c.violation('exchange of quark generations', dict(diff=r, basis=j[0], seed=j[1], parameters=j[2]))


# -- running above and below the scale ----------------------------------------------
# The scale dependence of the loop terms is the difference of the runnings, when
# masses and couplings run as well.
S0 = 91.1876
DIPOLES = ('uG', 'dG', 'ugamma', 'dgamma', 'egamma')
CHARGED = ('V1udLL', 'V8udLL', 'VnueduLL')      # rotation of the CKM matrix, or a phase of neutrinos, that are a matter of convention
CHARGE = dict(u=2 / 3, d=-1 / 3, e=-1)


def consistent():
    """Parameters at S0 with light masses as WET running takes them."""
    P = {**smpar.p, 'm_t': 173., 'm_h': 125., 'loop_order': 0}
    P.update({k: DEFAULT[k] for k in ('GF', 'alpha_e', 'alpha_s', 'm_e', 'm_mu', 'm_tau')})
    P['m_b'] = qcd.m_b(DEFAULT['m_b'], S0, 5, DEFAULT['alpha_s'])
    P['m_c'] = qcd.m_c(DEFAULT['m_c'], S0, 5, DEFAULT['alpha_s'])
    for k in ('m_s', 'm_u', 'm_d'):
        P[k] = qcd.m_s(DEFAULT[k], S0, 5, DEFAULT['alpha_s'])
    return P


def mass(kind, j, scale):
    if kind == 'e':
        return DEFAULT[('m_e', 'm_mu', 'm_tau')[j]]
    if (kind, j) == ('d', 2):
        return qcd.m_b(DEFAULT['m_b'], scale, 5, DEFAULT['alpha_s'])
    if (kind, j) == ('u', 1):
        return qcd.m_c(DEFAULT['m_c'], scale, 5, DEFAULT['alpha_s'])
    return qcd.m_s(DEFAULT[{'u': ['m_u'], 'd': ['m_d', 'm_s']}[kind][j]], scale, 5, DEFAULT['alpha_s'])


def below(x):
    """Derivative in log(scale) at S0 of coefficients x, one loop."""
    h, al, ae, b0 = 1e-3, DEFAULT['alpha_s'], DEFAULT['alpha_e'] / 4 / math.pi, 23 / 3

    def unit(k, s):
        """Factor which WET running includes in the coefficient."""
        n, _, idx = k.partition('_')
        gs = math.sqrt(4 * math.pi * qcd.alpha_s(s, 5, al))
        if n in DIPOLES:
            return (gs if n[1] == 'G' else gs * gs) / mass(n[0], max(map(int, idx)) - 1, s)
        return gs if n in ('G', 'Gtilde') else 1.
    a, b = ({k: v * unit(k, s) for k, v in WETrunner(inputs.wc('WET', 'JMS', S0, x)).run(s).dict.items()} for s in (S0 * math.exp(h), S0 * math.exp(-h)))
    f = lambda t: qcd.alpha_s(S0 * math.exp(t), 5, al)
    A = f(0) / 4 / math.pi
    one = 2 * b0 * A / (math.log(f(-h) / f(h)) / 2 / h)       # more loops in the running of alpha_s are not for the law
    out = {}
    for k in set(a) | set(b):
        n, L = k.partition('_')[0], x.get(k, 0)
        d = (a.get(k, 0) - b.get(k, 0)) / 2 / h * one / unit(k, S0)
        if n in ('uG', 'dG'):
            d += L * ((b0 - 8) * A - 6 * CHARGE[n[0]]**2 * ae)
        elif n in ('ugamma', 'dgamma'):
            d += L * ((2 * b0 - 8) * A + (80 / 9 - 6 * CHARGE[n[0]]**2) * ae)
        elif n == 'egamma':
            d += L * (2 * b0 * A + (80 / 9 - 6) * ae)
        elif n in ('G', 'Gtilde'):
            d += L * b0 * A
        out[k] = d
    return out


def exchange_terms(v, g, gp, V):
    """Exchange of W and Z in the Standard Model, JMS."""
    s2, x = gp**2 / (g**2 + gp**2), -2 / v**2
    n = dict(nL=.5, eL=s2 - .5, eR=s2, uL=.5 - 2 / 3 * s2, uR=-2 / 3 * s2, dL=s2 / 3 - .5, dR=s2 / 3)
    one = np.eye(3)
    unit = np.einsum('pr,st->prst', one, one)
    out = {}
    for f in ('nL', 'eL', 'eR', 'uL', 'uR', 'dL', 'dR'):
        name = {'n': 'nu'}.get(f[0], f[0])
        out[f'V{name}{name}{f[1]}{f[1]}'] = x * n[f]**2 * unit
    for pre, pairs in (('', 'nueLL nueLR eeLR nuuLL nuuLR nudLL nudLR euLL edLL euRR edRR euLR edLR ueLR deLR'), ('1', 'uuLR ddLR udLL udRR udLR duLR')):
        for pair in pairs.split():
            f, h = ('n', pair[2]) if pair.startswith('nu') else (pair[0], pair[1])
            out[f'V{pre}{pair}'] = 2 * x * n[f + pair[-2]] * n[h + pair[-1]] * unit
    for k in ('VnunuLL', 'VeeLL', 'VeeRR'):
        out[k] = (out[k] + out[k].transpose(0, 3, 2, 1)) / 2
    W = np.einsum('pt,rs->prst', V, V.conj())
    out['VnueLL'] = out['VnueLL'] + x * np.einsum('pt,rs->prst', one, one)
    out['VnueduLL'] = x * np.einsum('pr,ts->prst', one, V.conj())
    out['V1udLL'] = out['V1udLL'] + x * W / 3
    out['V8udLL'] = 2 * x * W
    res = {}
    for name, a in out.items():
        for idx in np.argwhere(a != 0):
            k, u = SYM.put(name, [int(i) + 1 for i in idx], 1j)
            if u == 1j and k in JMS:
                res[k] = res.get(k, 0) + a[tuple(idx)]
    return res


def above(D, P, full):
    """Derivative in log(scale) of what matching gives when the coefficients (to
    first order in D), couplings and masses run, light Yukawa couplings included
    or not."""
    K = ckmutil.ckm.ckm_tree(P['Vus'], P['Vub'], P['Vcb'], P['gamma'])
    e, eps, h, loop = math.sqrt(4 * math.pi * P['alpha_e']), 1e-8, 1e-3, 16 * math.pi**2

    def start(C):
        gf = P['GF'] - math.sqrt(2) / 4 * (-C['ll'][1, 0, 0, 1] - C['ll'][0, 1, 1, 0] + 2 * C['phil3'][1, 1] + 2 * C['phil3'][0, 0]).real
        v = math.sqrt(1 / math.sqrt(2) / gf)
        g = 2 * P['m_W'] / v
        gp = e * g / math.sqrt(g * g - e * e) + e * e * g / (g * g - e * e) * C['phiWB'].real * v * v
        S = dict(g=g * (1 - C['phiW'].real * v * v), gp=gp * (1 - C['phiB'].real * v * v),
                 gs=math.sqrt(4 * math.pi * P['alpha_s']) * (1 - C['phiG'].real * v * v))
        S.update(smpar.vMh2_to_m2Lambda(v, P['m_h']**2, C))
        y = lambda *m: np.diag([P[x] for x in m]) * math.sqrt(2) / v
        S['Gu'] = K.conj().T @ y('m_u', 'm_c', 'm_t') + C['uphi'] * v * v / 2
        S['Gd'] = y('m_d', 'm_s', 'm_b') + C['dphi'] * v * v / 2
        S['Ge'] = y('m_e', 'm_mu', 'm_tau') + C['ephi'] * v * v / 2
        if not full:
            S.update(Gu=S['Gu'] @ np.diag([0, 0, 1.]), Gd=0 * S['Gd'], Ge=0 * S['Ge'])
        return S

    def measured(C, S):
        v = smpar.m2Lambda_to_vMh2(float(np.real(S['m2'])), float(np.real(S['Lambda'])), C)['v']
        g, gp = float(np.real(S['g'])) * (1 + C['phiW'].real * v * v), float(np.real(S['gp'])) * (1 + C['phiB'].real * v * v)
        x = g * gp / math.sqrt(g * g + gp * gp)
        for _ in range(30):
            r = g * g - x * x
            x -= (x * g / math.sqrt(r) + x * x * g / r * C['phiWB'].real * v * v - gp) / ((g * g + gp * gp) / g**2)**1.5
        gf = 1 / math.sqrt(2) / v**2 + math.sqrt(2) / 4 * (-C['ll'][1, 0, 0, 1] - C['ll'][0, 1, 1, 0] + 2 * C['phil3'][1, 1] + 2 * C['phil3'][0, 0]).real
        return {**P, 'm_W': g * v / 2, 'alpha_e': x * x / 4 / math.pi, 'GF': gf}, v
    zero = {k: 0 * v for k, v in D.items()}
    sm = c15.beta({**zero, **start(zero)})
    out = {}
    for s in (1, -1):
        C = {k: s * eps * v for k, v in D.items()}
        S = start(C)
        b = c15.beta({**C, **S})
        for t in (h, -h):
            Ct = {k: v + t * b[k] / loop for k, v in C.items()}
            St = {k: v + t * b[k] / loop for k, v in S.items()}
            Pt, v = measured(Ct, St)
            M = K @ (v / math.sqrt(2) * (St['Gu'] - Ct['uphi'] * v * v / 2 - t * sm['Gu'] / loop))
            X = np.zeros((3, 3), complex)
            X[:2, 2] = M[:2, 2] / abs(M[2, 2])
            X[2, :2] = -X[:2, 2].conj()
            vb = math.sqrt(1 / math.sqrt(2) / Pt['GF'])
            g, e1 = 2 * Pt['m_W'] / vb, math.sqrt(4 * math.pi * Pt['alpha_e'])
            for part in (match('Warsaw', 'JMS', S0, dic(Ct), Pt), exchange_terms(vb, g, e1 * g / math.sqrt(g * g - e1 * e1), (np.eye(3) - X) @ K)):
                for k, x in part.items():
                    out[k] = out.get(k, 0) + s * np.sign(t) * x / (4 * eps * h)
    return out


def running(args):
    name, seed = args
    P = consistent()
    rng = np.random.default_rng([seed, 4])
    d = inputs.values('SMEFT', 'Warsaw', rng, keys=[k for k in wcxf.Basis['SMEFT', 'Warsaw'].all_wcs if k.split('_')[0] == name], mag=1.)
    D = {k: np.zeros(np.shape(v), complex) for k, v in c15.coefficients(rng).items()}
    D.update({k: np.asarray(v) for k, v in arr(d).items() if k in D})
    hi, lo = (response('Warsaw', 'JMS', s, d, {**P, 'loop_order': 1}) for s in (2 * S0, S0))
    got = {k: (hi.get(k, 0) - lo.get(k, 0)) / math.log(2) for k in set(hi) | set(lo)}
    down = below(response('Warsaw', 'JMS', S0, d, P))
    part, full = above(D, P, False), above(D, P, True)
    bad, worst = [], 0
    dip = lambda k: k.split('_')[0] in DIPOLES
    for group in (True, False):
        ks = [k for k in set(got) | set(down) | set(part) | set(full) if dip(k) == group and not (name in ('phiq3', 'uphi', 'uW', 'phiWtildeB') and k.split('_')[0] in CHARGED)]
        want = {k: down.get(k, 0) - (full if group else part).get(k, 0) for k in ks}
        top = max([abs(v) for v in want.values()] + [1e-5])
        for k in ks:
            r = abs(got.get(k, 0) - want[k]) / top
            worst = max(worst, r)
            if not r <= (3e-3 if group else 3e-5):
                bad.append((k, got.get(k, 0), want[k]))
    return bad[:4], worst


def scale_dependence(c):
    jobs = [(n, c.seed + i) for n in classes('Warsaw') for i in range(c.n(1, 4))]
    for j, r in zip(jobs, results(c, 'scale dependence', pmap(running, jobs))):
        if r is None:
            continue
        c.count('operator classes: dependence on the scale')
        if r[0]:
            c.violation('scale dependence ' + j[0], dict(diff=r[0], seed=j[1]))


# -- numbers ---------------------------------------------------------------------------
def classes(basis):
    return sorted({k.split('_')[0] for k in wcxf.Basis['SMEFT', basis].all_wcs if not k.startswith('llphiphi')})


def ref_names():
    out = [f'class|{n}|{o}' for n in classes('Warsaw up') for o in (0, 1)]
    return out + [f'all|{b}|{to}|{o}|{n}' for b, to in (('Warsaw up', 'JMS'), ('Warsaw', 'JMS'), ('Warsaw', 'flavio'), ('Warsaw up', 'flavio'), ('Warsaw', 'EOS'), ('Warsaw', 'Bern'))
                  for o in (0, 1) for n in (1, 2)]


def noise(name, x):
    """Precision of linear responses."""
    return 3e-9 * max([abs(v) for v in x.values()] + [1]) if name.startswith('class') else 0.


def ref_case(name):
    kind, a, *rest = name.split('|')
    if kind == 'class':
        o = int(rest[0])
        keys = [k for k in wcxf.Basis['SMEFT', 'Warsaw up'].all_wcs if k.split('_')[0] == a]
        d = ref.dense('C18' + a, keys, inputs.real_keys('SMEFT', 'Warsaw up'))
        x = response('Warsaw up', 'JMS', 160., d, {**HEAVY, 'loop_order': o})
        if o:       # loop terms by themselves
            y = response('Warsaw up', 'JMS', 160., d, HEAVY)
            x = {k: x.get(k, 0) - y.get(k, 0) for k in set(x) | set(y)}
        a = noise(name, x)
        return {k: v for k, v in x.items() if abs(v) > a}
    to, o, n = rest[0], int(rest[1]), int(rest[2])
    d = ref.dense(f'C18{a}{n}', [k for k in wcxf.Basis['SMEFT', a].all_wcs if not k.startswith('llphiphi')], inputs.real_keys('SMEFT', a), 1e-8)
    return match(a, to, SCALES[n], d, {**PARS[n], 'loop_order': o})


# -- size --------------------------------------------------------------------------------
def full(args):
    """Not only to first order: independence of the way at realistic size."""
    seed, par, scale, n = args
    rng = np.random.default_rng([seed, 77])
    keys = [k for k in wcxf.Basis['SMEFT', 'Warsaw'].all_wcs if not k.startswith('llphiphi')]
    d = inputs.values('SMEFT', 'Warsaw', rng, keys=keys, n=n, mag=1e-7)
    up = paths.translate('SMEFT', 'Warsaw', 'Warsaw up', scale, d, {**DEFAULT, **smpar.p, **par})
    j = match('Warsaw up', 'JMS', scale, up, par)
    bad = []
    for b, to, x in (('Warsaw', 'JMS', d), ('Warsaw', 'flavio', d), ('Warsaw', 'Bern', d), ('Warsaw', 'EOS', d), ('Warsaw up', 'flavio', up)):
        want = j if to == 'JMS' else paths.translate('WET', 'JMS', to, scale, j, par)
        want = paths.keep('WET', to, want)
        y = differ(to, match(b, to, scale, x, par), want, {k: abs(v) for k, v in want.items()}, 1e-8, 1e-10)
        if y:
            bad.append((b, to, y))
    # other values of the loop order have no loop terms
    p = {k: v for k, v in par.items() if k != 'loop_order'}
    t = match('Warsaw', 'JMS', scale, d, p)
    if t != match('Warsaw', 'JMS', scale, d, {**p, 'loop_order': 0}):
        bad.append('loop order 0 is not the default')
    l = match('Warsaw', 'JMS', scale, d, {**p, 'loop_order': 1})
    if len(d) > 100 and not any(abs(l.get(k, 0) - t.get(k, 0)) > 1e-5 * abs(t.get(k, 0)) for k in set(l) | set(t)):
        bad.append('no loop terms')
    for o in (0, 1):
        for b in ('Warsaw', 'Warsaw up'):
            for z in ({}, {k: 0. for k in list(d)[:3]}):
                x = match(b, 'JMS', scale, z, {**p, 'loop_order': o})
                if any(v != 0 for v in x.values()):
                    bad.append(('something from nothing', b, o, {k: v for k, v in x.items() if v != 0}))
    return bad[:3]


def model(c):
    for at, lev in (('[a |-> "Warsaw"]', c.n(4, 6)), ('[a |-> "Warsaw", b |-> "Warsaw up"]', c.n(3, 4))):
        body = f'MC_Atoms == {at}\nSmall == TLCGet("level") <= {lev} /\\ \\A r \\in Live : \\A x \\in DOMAIN obj[r].t : Len(x[3]) <= 2 /\\ obj[r].t[x] \\in -3..3\n'
        r = tlc.run('MC', 'SPECIFICATION Spec\nCONSTANTS\n Atoms <- MC_Atoms\n Regs = {1,2}\n MaxWord = 3\n Orders = {0,1}\nCONSTRAINT Small\n'
                    'INVARIANTS Typed Commute Direct Origin\n', files={'MC.tla': tlc.model('MC', body, 'MatchFlow')}, workers=8)
        c.model(r, f'MatchFlow_{lev}')


def tables(c=None):
    global SYM, CHARGES
    SYM = Sym(c)
    c15.tables()
    r = tlc.run('Charges', 'SPECIFICATION Spec\nPOSTCONDITION Out2\n', expect_out=True)
    CHARGES = {k: {o: list(f) for o, f in v.items()} for k, v in r.data.items()}
    return r


def run(c):
    c.model(tables(c), 'Charges')
    model(c)
    run_ref(c, 'C18', globals(), 1e-6, noise)
    flows(c)
    symmetries(c)
    scale_dependence(c)
    jobs = [(c.seed * 10 + n, {**PARS[n % 4], 'loop_order': n % 2}, SCALES[n % 3], [None, 300, 20, 1][n % 4]) for n in range(c.n(8, 80))]
    for j, bad in zip(jobs, results(c, 'realistic size', pmap(full, jobs))):
        c.count('points of realistic size')
        if bad:
            c.violation('realistic size', dict(diff=bad, seed=j[0], parameters=j[1], scale=j[2], num=j[3]))
    c.assumptions += ['Linear to first order: the Fermi constant is an input and depends on coefficients',
                      'Dependence on the scale: light masses are neglected except for dipoles; for phiq3, uphi, uW and phiWtildeB without the operators that charged currents generate']
