"""C23: SM parameters (module SmPar)."""
import math
import random
import warnings
import numpy as np
import tlc
import ckmutil.ckm
from lib import pmap, results
from wilson import wcxf
from wilson.util import smeftutil
from wilson.run.smeft import SMEFT, smpar
import inputs

X, R, D = 4, 6, 6
TOL = 1e-9


def split(rnd, ckin):
    """phiBox and phiD with the given combination"""
    phid = rnd.choice([0, rnd.uniform(-1, 1)]) * (abs(ckin) or rnd.choice([0, 1e-9]))
    return dict(phiBox=ckin + phid / 4, phiD=phid)


def units(rnd):
    return 10 ** rnd.uniform(3, 6), 10 ** rnd.uniform(-2, 1)


def vacuum(a):
    seed, s = a
    rnd = random.Random(seed)
    u, l = units(rnd)
    C = dict(split(rnd, s['k'] / D / 2 / u), phi=s['c'] * l / 3 / u)
    if rnd.random() < .2:
        C = {k: complex(v) for k, v in C.items()}
    v, Mh2 = math.sqrt(u * s['x']), u * l * s['x'] * s['s'] * D / s['kin']
    m2, Lam = s['m'] * l * u / 4, s['l'] * l
    d = smpar.vMh2_to_m2Lambda(v, Mh2, C)
    size = abs(Mh2 / v ** 2) + abs(3 * C['phi'] * v ** 2) + abs(Lam)
    if not (abs(d['m2'] - m2) <= TOL * size * v ** 2 and abs(d['Lambda'] - Lam) <= TOL * size):
        return 'to potential', s, d, dict(m2=m2, Lambda=Lam)
    # what the potential is computed from loses this much
    cond = size / (s['s'] * l)
    d = smpar.m2Lambda_to_vMh2(m2, Lam, C)
    if not (abs(d['v'] / v - 1) <= TOL * cond ** 2 and abs(d['Mh2'] / Mh2 - 1) <= TOL * cond ** 2 * (D / s['kin'])):
        return 'to vacuum', s, d, dict(v=v, Mh2=Mh2)
    return None


def existence(a):
    seed, g, some = a
    rnd = random.Random(seed)
    u, l = units(rnd)
    C = dict(phi=g['c'] * l / 3 / u, phiBox=0, phiD=0)
    if rnd.random() < .5:       # negative: the kinetic term is positive everywhere
        C.update(split(rnd, -10 ** rnd.uniform(-3, 0) / u))
    m2, Lam = g['m'] * l * u / 4, g['l'] * l
    try:
        d = smpar.m2Lambda_to_vMh2(m2, Lam, C)
    except ValueError:
        return ('refused', g, C) if some else None
    if not some:
        return 'accepted', g, C, d
    x = d['v'] ** 2 / u
    res = g['m'] - 2 * g['l'] * x + g['c'] * x * x
    if not (x > 0 and abs(res) <= 1e-8 * (abs(g['m']) + 2 * abs(g['l']) * x + abs(g['c']) * x * x)):
        return 'not stationary', g, C, d
    cur = g['l'] - g['c'] * x
    want = u * l * x * cur / (1 - 2 * (C['phiBox'] - C['phiD'] / 4) * x * u)
    if not (cur > 0 and abs(d['Mh2'] / want - 1) < 1e-8 * (abs(g['l']) + abs(g['c'] * x)) / cur):
        return 'mass', g, C, d, want
    b = smpar.vMh2_to_m2Lambda(d['v'], d['Mh2'], C)
    sc = abs(g['l']) + abs(g['c']) * x
    if not (abs(b['m2'] - m2) <= 1e-8 * sc * l * u * (1 + x) and abs(b['Lambda'] - Lam) <= 1e-8 * sc * l):
        return 'back', g, C, d, b
    return None


def small(seed):
    """round trips with coefficients of any size"""
    rnd = random.Random(seed)
    v, Mh2 = rnd.uniform(50, 1000), rnd.uniform(20, 1000) ** 2
    C = dict(split(rnd, rnd.choice([0, 1, -1]) * 10 ** rnd.uniform(-20, -1) / v ** 2),
             phi=rnd.choice([1, -1]) * 10 ** rnd.uniform(-25, 0) * Mh2 / v ** 4)
    d = smpar.vMh2_to_m2Lambda(v, Mh2, C)
    try:
        b = smpar.m2Lambda_to_vMh2(d['m2'], d['Lambda'], C)
    except ValueError as e:
        return 'refused', (v, Mh2, C), str(e)
    cond = 1 + 6 * abs(C['phi']) * v ** 4 / Mh2 / (1 - 2 * (C['phiBox'] - C['phiD'] / 4) * v ** 2)
    if not (abs(b['v'] / v - 1) < 1e-12 * cond ** 2 and abs(b['Mh2'] / Mh2 - 1) < 1e-12 * cond ** 2):
        return 'round trip', (v, Mh2, C), b
    return None


def refused(seed):
    rnd = random.Random(seed)
    C = dict(phi=rnd.uniform(-1, 1) * 1e-6, phiBox=0, phiD=0)
    v, Mh2 = rnd.choice([(-246., 1e4), (0., 1e4), (246., -1e4), (246., 0.), (float('nan'), 1e4), (246., float('nan')), (-1e-9, 1.), (-3., -4.)])
    try:
        d = smpar.vMh2_to_m2Lambda(v, Mh2, C)
    except ValueError:
        return None
    return 'accepted', v, Mh2, d


# -- all parameters --------------------------------------------------------------

def draw(rnd, keys, size, v2):
    """C dictionary (zeros elsewhere); `size`: typical C v^2"""
    C = {}
    for k, s in smeftutil.C_keys_shape.items():
        if k in smeftutil.dim4_keys:
            continue
        C[k] = 0 if s == 1 else np.zeros(s, complex)
        if k in keys:
            x = lambda: rnd.choice([1, -1]) * size * rnd.uniform(.2, 1) / v2
            if s == 1:
                C[k] = x()
            else:
                a = np.array([complex(x(), x()) for _ in range(int(np.prod(s)))]).reshape(s)
                C[k] = (a + a.T) * 1e-9 if k == 'llphiphi' else a
    return C


def pars():
    return dict(smpar.p)


def wrap(x):
    return (x + math.pi) % (2 * math.pi) - math.pi


def cmp_par(got, want, tol, keys):
    for k in keys:
        e = abs(wrap(got[k] - want[k])) if k == 'gamma' else abs(got[k] / want[k] - 1)
        if not e <= tol:
            return k, got[k], want[k]
    return None


def unitary(nr, n=3):
    q, r = np.linalg.qr(nr.normal(size=(n, n)) + 1j * nr.normal(size=(n, n)))
    return q * (np.diag(r) / abs(np.diag(r)))


def trip(a):
    seed, tab = a
    rnd = random.Random(seed)
    nr = np.random.default_rng(seed)
    p = pars()
    v2 = 1 / math.sqrt(2) / p['GF']
    ops = sorted(tab['ops'])
    others = [k for k in smeftutil.C_keys_shape if k not in smeftutil.dim4_keys and k not in ops]
    keys = rnd.choice([ops, [rnd.choice(ops)], rnd.sample(ops, 3), [], ops])
    size = 10 ** rnd.uniform(-8, -1)
    basis = rnd.choice(['Warsaw', 'Warsaw up'])
    C = draw(rnd, set(keys) | set(others if rnd.random() < .5 else ()), size, v2)
    yuk = [k for k in ('uphi', 'dphi', 'ephi') if k in keys]
    try:
        S = smpar.smeftpar(91.1876, C, basis)
    except ValueError as e:
        return 'refused', (seed, size), str(e)
    if set(S) != set(tab['lagrangian']):
        return 'keys', sorted(S)
    full = {**C, **S}
    got = smpar.smpar(full)
    e = cmp_par(got, p, 1e-9 * (1 + 3e2 * size), tab['inputs'])
    if e:
        return 'round trip', (seed, size, keys, basis), e
    # the other basis of quark doublets has the same physics
    if not yuk:
        o = smpar.smpar({**C, **smpar.smeftpar(160, C, 'Warsaw up' if basis == 'Warsaw' else 'Warsaw')})
        e = cmp_par(o, got, 1e-9, got)
        if e:
            return 'basis', (seed, size), e
        v = math.sqrt(v2)
        K = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
        Mu, Md, Me = (np.diag([p[k] for k in q]) for q in (('m_u', 'm_c', 'm_t'), ('m_d', 'm_s', 'm_b'), ('m_e', 'm_mu', 'm_tau')))
        want = dict(Gu=K.conj().T @ Mu if basis == 'Warsaw' else Mu, Gd=Md if basis == 'Warsaw' else K @ Md, Ge=Me)
        for k, w in want.items():
            if np.max(np.abs(S[k] * v / math.sqrt(2) - w)) > 1e-11 * np.max(np.abs(w)):
                return 'basis convention', (seed, basis), k
    # dependence
    chosen = rnd.choice(ops + rnd.sample(others, 1))
    C2 = dict(C)
    d = draw(rnd, {chosen}, 1e-3, v2)[chosen]
    C2[chosen] = C2[chosen] + d
    S2 = smpar.smeftpar(91.1876, C2, basis)
    for l, deps in tab['lagrangian'].items():
        same = np.array_equal(S[l], S2[l])
        if chosen not in deps and not same:
            return 'depends', l, chosen
        if chosen in deps and same:
            return 'does not depend', l, chosen
    g2 = smpar.smpar({**full, chosen: C2[chosen]})
    for q, deps in tab['physical'].items():
        e = cmp_par(g2, got, 1e-12 if q in ('GF', 'alpha_s', 'alpha_e', 'm_W', 'm_Z', 'm_h') else 1e-9, [q])
        if chosen not in deps and e:
            return 'depends', q, chosen
        if chosen in deps and chosen != 'phi' and cmp_par(g2, got, 1e-15, [q]) is None:
            return 'does not depend', q, chosen
    lag = rnd.choice(sorted(tab['lagrangian']))
    F = dict(full)
    F[lag] = F[lag] * 1.01 if np.shape(F[lag]) == () else F[lag] + .01 * np.max(np.abs(F[lag])) * nr.normal(size=(3, 3))
    g2 = smpar.smpar(F)
    for q, deps in tab['physical'].items():
        e = cmp_par(g2, got, 1e-9, [q])
        # the vacuum value may drop out
        if (e is not None and lag not in deps) or (e is None and lag in deps and lag not in ('m2', 'Lambda')):
            return 'dependence', q, lag, e
    # rotations of the fields
    Uq, Uu, Ud, Ul, Ue = (unitary(nr) for _ in range(5))
    F = dict(full)
    for k, (L, Rr) in dict(Gu=(Uq, Uu), uphi=(Uq, Uu), Gd=(Uq, Ud), dphi=(Uq, Ud), Ge=(Ul, Ue), ephi=(Ul, Ue)).items():
        F[k] = L.conj().T @ full[k] @ Rr
    e = cmp_par(smpar.smpar(F), got, 1e-8, got)
    if e:
        return 'rotation', seed, e
    F = {k: np.conj(v) for k, v in full.items()}
    e = cmp_par(smpar.smpar(F), dict(got, gamma=-got['gamma']), 1e-9, got)
    if e:
        return 'CP', seed, e
    return None


def exact(C, S):
    """Masses of the gauge bosons and the electric charge from the kinetic and
    mass terms of the Lagrangian."""
    v2 = smpar.m2Lambda_to_vMh2(S['m2'], S['Lambda'], C)['v'] ** 2
    g, gp = S['g'], S['gp']
    k = np.array([[1 - 2 * C['phiW'] * v2, C['phiWB'] * v2], [C['phiWB'] * v2, 1 - 2 * C['phiB'] * v2]])
    M = v2 / 4 * np.array([[g * g, -g * gp], [-g * gp, gp * gp]]) * (1 + C['phiD'] * v2 / 2)
    w = np.linalg.eigvals(np.linalg.solve(k, M))
    n = np.array([gp, g])
    return dict(m_Z=math.sqrt(max(w.real)), m_W=g * math.sqrt(v2) / 2 / math.sqrt(k[0, 0]),
                alpha_e=(g * gp) ** 2 / (n @ k @ n) / 4 / math.pi, alpha_s=S['gs'] ** 2 / (1 - 2 * C['phiG'] * v2) / 4 / math.pi)


def order(seed):
    """to first order, what smpar returns is what the Lagrangian says"""
    rnd = random.Random(seed)
    p = pars()
    v2 = 1 / math.sqrt(2) / p['GF']
    C0 = draw(rnd, (), 1, v2)
    S = smpar.smeftpar(91, C0, 'Warsaw')
    keys = rnd.choice([[k] for k in ('phiW', 'phiB', 'phiWB', 'phiD', 'phiG')] + [['phiW', 'phiB', 'phiWB', 'phiD', 'phiG']])
    C1 = draw(rnd, keys, 1e-4, v2)
    res = []
    for f in (lambda C: smpar.smpar({**C, **S}), lambda C: exact(C, S)):
        a, b = f(C1), f({k: -x for k, x in C1.items()})
        z = f(C0)
        res.append({k: ((a[k] - b[k]) / 2e-4 / z[k], z[k]) for k in ('m_Z', 'm_W', 'alpha_e', 'alpha_s')})
    for k in res[0]:
        (d1, z1), (d2, z2) = res[0][k], res[1][k]
        if not (abs(d1 - d2) < 1e-6 and abs(z1 / z2 - 1) < 1e-12):
            return k, keys, d1, d2, z1, z2
    return None


def noroot(seed):
    """No hypercharge coupling: refused."""
    rnd = random.Random(seed)
    p = pars()
    v2 = 1 / math.sqrt(2) / p['GF']
    C = draw(rnd, (), 1, v2)
    eps = rnd.uniform(2.5, 30)
    C['phiWB'] = eps / v2
    gb, eb = 2 * p['m_W'] / math.sqrt(v2), math.sqrt(4 * math.pi * p['alpha_e'])
    x = np.linspace(1e-6, 3, 20001)
    f = gb * x / np.sqrt(gb ** 2 + x ** 2) * (1 - eps * gb * x / (gb ** 2 + x ** 2)) - eb
    has = np.max(f) > 0
    try:
        S = smpar.smeftpar(91, C, 'Warsaw')
    except ValueError:
        return None                     # also where the search fails
    if not has:
        return 'accepted', eps, S['gp']
    got = smpar.smpar({**C, **S})
    e = cmp_par(got, p, 1e-9, ['alpha_e', 'm_W', 'GF'])
    return ('root', eps, e) if e else None


# strongly affected by any coefficient: the extraction is approximate
LIGHT = ('m_u', 'm_d', 'm_s', 'm_c', 'm_e', 'm_mu')


def full(seed):
    """extraction at a high scale and running down"""
    rng = np.random.default_rng(seed)
    rnd = random.Random(seed)
    scale = rnd.choice([200., 1000., 5000.])
    n = rnd.choice([0, 3, 30, 300])
    mag = 10 ** rnd.uniform(-11, -9)
    d = inputs.values('SMEFT', 'Warsaw', rng, n=n, mag=mag) if n else {}
    for k in list(d):
        if k.startswith(('uphi', 'dphi', 'ephi', 'llphiphi')):
            d[k] = d[k] * 1e-3 if not k.startswith('llphiphi') else d[k] * 1e-9
    s = SMEFT(inputs.wc('SMEFT', 'Warsaw', scale, d))
    p = pars()
    acc = rnd.choice(['integrate', 'leadinglog']) if scale < 500 else 'integrate'
    got = s.get_smpar(accuracy=acc)
    worst = max((abs(wrap(got[k] - p[k])) if k == 'gamma' else abs(got[k] / p[k] - 1), k) for k in got if k != 'm_Z' and (n == 0 or k not in LIGHT))
    return dict(scale=scale, n=n, mag=mag, acc=acc, worst=worst)


def run(c):
    r = tlc.run('SmPar', f'SPECIFICATION Spec\nCONSTANTS X = {X}\n R = {R}\n D = {D}\nINVARIANTS IsVacuum Unique Emit\nPOSTCONDITION Out\n',
                workers=1, expect_out=True)
    c.model(r)
    rnd = random.Random(c.seed)
    vac = tlc.printed(r.out, 'BEH')
    if not c.thorough:
        rnd.shuffle(vac)
        vac = vac[:1500]
    tab = r.data
    s0 = c.seed * 1000003
    # (a vanishing discriminant would be decided by rounding errors)
    grid = [(g, True) for g in tab['some']] + [(g, False) for g in tab['none'] if g['c'] == 0 or g['l'] ** 2 != g['c'] * g['m']]

    def go(name, f, xs):
        n = 0
        for x, e in zip(xs, results(c, name, pmap(f, xs))):
            n += 1
            if e:
                c.violation(name, e)
        c.count(name, n)
        c.trace(n)
    go('vacuum', vacuum, [(s0 + i, s) for i, s in enumerate(vac)])
    go('existence', existence, [(s0 + i, g, b) for i, (g, b) in enumerate(grid)])
    go('small', small, [s0 + i for i in range(c.n(400, 20000))])
    go('refused', refused, [s0 + i for i in range(c.n(50, 500))])
    go('parameters', trip, [(s0 + i, tab) for i in range(c.n(300, 6000))])
    go('order', order, [s0 + i for i in range(c.n(60, 600))])
    go('noroot', noroot, [s0 + i for i in range(c.n(60, 600))])
    xs = [s0 + i for i in range(c.n(16, 200))]
    for x, e in zip(xs, results(c, 'running', pmap(full, xs))):
        if e:
            c.sample(e)
            c.count('running')
            if e['worst'][0] > (.1 if e['n'] else .02 if e['acc'] == 'leadinglog' else .002):
                c.violation('running', dict(seed=x, **e))
    c.assumptions.append('Coefficients with |C| v^2 below about 0.1 for the full set of parameters; the dimension-six effects of gauge couplings are defined to linear order, compared with the Lagrangian to first order.')
