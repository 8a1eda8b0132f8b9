"""C15: running in SMEFT (modules SmeftOps, SmeftFlow)."""
import io
import math
import random
import numpy as np
import ckmutil.diag
import ckmutil.phases
import tlc
import ref
import inputs
import wilsonlib
from lib import Violation, pmap, results, dict_diff
from c14 import run_ref
from wilson import wcxf
from wilson.run.smeft import SMEFT, rge
from wilson.util import smeftutil

T = None        # tables of SmeftOps
SPECIES = 'qudle'
SM = ('g', 'gp', 'gs', 'Lambda', 'm2', 'Gu', 'Gd', 'Ge')
TIGHT = dict(method='DOP853', rtol=1e-9, atol=1e-13)
TICK = 0.25
# dphi contains (Gu Gu^dagger Gu)_pt in place of its hermitian conjugate
DEVIATION = 0
DPHI = 'beta function of dphi: term with quqd1 and three powers of Gu'


def tables():
    global T
    r = tlc.run('SmeftOps', 'SPECIFICATION Spec\nPOSTCONDITION Out\n', expect_out=True)
    T = r.data
    for o in T['ops'].values():
        o['f'] = list(o['f'])
        for i in o['iso']:
            i['perm'] = list(i['perm'])
    for g in T['gram'].values():
        for e in g:
            e['perm'] = list(e['perm'])
    return r


# -- points ---------------------------------------------------------------------
PATTERNS = ('dense', 'single', 'diagonal', 'lower', 'upper', 'real', 'sparse', 'third')


def fits(pattern, k, rng, one):
    i = k.partition('_')[2]
    if pattern == 'single':
        n = k.partition('_')[0]
        return one.setdefault(n, k) == k
    if len(i) < 2:
        return True
    return dict(dense=True, real=True, diagonal=len(set(i)) == 1, lower=i[0] >= i[-1], upper=i[0] <= i[-1],
                sparse=rng.random() < .15, third=set(i) == {'3'})[pattern]


def coefficients(rng, mag=1.0, keys=None, pattern='dense'):
    """Arrays of all coefficients, with the symmetries of the operators."""
    re = inputs.real_keys('SMEFT', 'Warsaw')
    d = {}
    keys = list(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs if keys is None else keys)
    if pattern != 'dense':
        keys = [keys[i] for i in rng.permutation(len(keys))]
        one = {}
        keys = [k for k in keys if fits(pattern, k, rng, one)]
        if pattern == 'real':
            re = set(keys)
    for k in keys:
        x, y = rng.normal(size=2) * mag
        d[k] = x if k in re else complex(x, y)
    C = smeftutil.wcxf2arrays_symmetrized(d)
    for n, o in T['ops'].items():
        if n not in SM and n not in C:
            C[n] = np.zeros([3] * len(o['f']), complex) if o['f'] else 0
    return C


def couplings(rng, m2=True, yuk=1.0, gauge=1.0):
    C = {k: gauge * rng.uniform(.4, 1.1) for k in ('g', 'gp', 'gs', 'Lambda')}
    C['Lambda'] *= gauge
    C['m2'] = rng.normal() if m2 else 0.
    for k in ('Gu', 'Gd', 'Ge'):
        C[k] = yuk * (rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)))
    return C


def point(rng, mag=1.0, **kw):
    return {**coefficients(rng, mag), **couplings(rng, **kw)}


def beta(C, newphys=True):
    """Beta functions as the leading logarithm sees them."""
    L = 16 * math.pi**2
    out = rge.smeft_evolve_leadinglog(dict(C), 1.0, math.exp(L), newphys=newphys)
    b = {k: np.asarray(out[k]) - np.asarray(C[k]) for k in C}
    if DEVIATION and newphys:
        b['dphi'] = b['dphi'] - deviation(C)
    return b


def deviation(C):
    G = C['Gu']
    H = G.conj().T
    return -12 * np.einsum('tprs,pt->rs', C['quqd1'], G @ H @ G - H @ G @ H)


# -- transformations ---------------------------------------------------------------
def rotate(C, U):
    out = {}
    for k, v in C.items():
        v = np.asarray(v)
        for i, f in enumerate(T['ops'][k]['f'] if k in T['ops'] else []):
            M = U[f['sp']]
            v = np.moveaxis(np.tensordot(v, M.conj() if f['bar'] else M, axes=(i, 0)), -1, i)
        out[k] = v
    return out


def cp(C):
    return {k: np.conj(v) * (-1 if k in T['ops'] and T['ops'][k]['dual'] else 1) for k, v in C.items()}


GAUGE = ('g', 'gp', 'gs')


def reflect(C, i):
    return {k: (-1 if k == GAUGE[i] or (k in T['ops'] and T['ops'][k]['odd'][i]) else 1) * np.asarray(v) for k, v in C.items()}


def weight(k):
    return T['ops'][k]['weight'] if k in T['ops'] else T['scalars'][k]


def dim(k):
    return T['ops'][k]['dim'] if k in T['ops'] else T['scalardim'][k]


def loops(C, x, extra=0):
    return {k: x**(weight(k) + extra) * np.asarray(v) for k, v in C.items()}


def mass(C, x):
    return {k: x**dim(k) * np.asarray(v) for k, v in C.items()}


def iso(C):
    out = {k: np.asarray(C[k]) for k in T['scalars']}
    for n, o in T['ops'].items():
        for i in o['iso']:
            v = np.transpose(np.asarray(C[n]), [x - 1 for x in i['perm']]) * i['sign']
            out[i['to']] = v.conj() if i['conj'] else v
    for n in T['ops']:
        if n not in out:
            out[n] = 0 * np.asarray(C[n])
    return out


def no_partner(C):
    return {k: 0 * np.asarray(v) if k == 'gp' or (k in T['ops'] and not T['ops'][k]['iso']) else v for k, v in C.items()}


def product(X, Y, part):
    """Real scalar product of coefficients."""
    s = 0.
    for e in T['gram'][part]:
        y = np.asarray(Y[e['y']])
        if e['perm']:
            y = np.transpose(y, np.argsort([i - 1 for i in e['perm']]))
        s += e['num'] / 48 * np.vdot(X[e['x']], y).real
    return s


def only(C, names):
    return {k: v if k in SM or k in names else 0 * np.asarray(v) for k, v in C.items()}


def unitary(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)))
    return q


def combine(X, a, Y, b):
    return {k: X[k] if k in SM else a * np.asarray(X[k]) + b * np.asarray(Y[k]) for k in X}


def differ(A, B, keys=None, tol=1e-10):
    """Entries that differ, relative to the largest of all."""
    bad = []
    for k in A:
        if keys is not None and k not in keys:
            continue
        a, b = np.asarray(A[k]), np.asarray(B[k])
        d = np.max(np.abs(a - b)) if a.shape == b.shape else np.inf
        if not d <= tol * (1 + np.max(np.abs(a)) + np.max(np.abs(b))):
            i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape) if a.shape and a.shape == b.shape else ()
            bad.append((k, [int(x) + 1 for x in i], complex(a[i]) if a.shape == b.shape else a.shape, complex(b[i]) if a.shape == b.shape else b.shape))
    return bad


def symmetrized(C):
    d = smeftutil.symmetrize({k: np.array(v) for k, v in C.items() if k not in SM})
    return {**C, **d}


# -- checks of the beta functions ------------------------------------------------------
def law(args):
    """One random instance of all laws of the beta functions; returns {law: differences}"""
    seed, dev, sparse = args
    global DEVIATION
    DEVIATION = dev
    rng = np.random.default_rng([seed, 15])
    if sparse:
        names = [n for n in T['ops'] if n not in SM]
        C = point(rng)
        C = only(C, rng.choice(names, 3, replace=False))
    else:
        C = point(rng)
    b = beta(C)
    bad = {}
    U = {s: unitary(rng) for s in SPECIES}
    bad['flavour rotations'] = differ(beta(rotate(C, U)), rotate(b, U))
    bad['CP'] = differ(beta(cp(C)), cp(b))
    for i in range(3):
        bad['reflection of ' + GAUGE[i]] = differ(beta(reflect(C, i)), reflect(b, i))
    x = rng.uniform(.6, 1.5)
    bad['counting of loops'] = differ(beta(loops(C, x)), loops(b, x, 2))
    x = rng.uniform(.5, 2)
    bad['units of mass'] = differ(beta(mass(C, x)), mass(b, x))
    bad['symmetries of operators'] = differ(symmetrized(b), b)
    # linearity
    D = {**point(rng), **{k: C[k] for k in SM}}
    p, q = rng.normal(size=2)
    bD, b0 = beta(D), beta(only(C, ()))
    bE = beta(combine(C, p, D, q))
    want = {k: b0[k] + p * (b[k] - b0[k]) + q * (bD[k] - b0[k]) for k in b}
    bad['linearity'] = differ(bE, want)
    bad['pure standard model'] = differ({k: v for k, v in b0.items() if k not in SM}, {k: 0 * v for k, v in b0.items() if k not in SM})
    bn = beta(C, newphys=False)
    bad['without new physics'] = differ(bn, {k: b[k] if k in SM else 0 * b[k] for k in b})
    if C['m2'] != 0:
        M = {**C, 'm2': 0.}
        bM, bM0 = beta(M), beta(only(M, ()))
        bad['standard model feels coefficients by the Higgs mass'] = differ({k: bM[k] for k in SM}, {k: bM0[k] for k in SM})
    N = no_partner(C)
    bN = beta(N)
    bad['exchange of u and d'] = differ(beta(iso(N)), iso(bN))
    # self-adjoint
    for part in T['gram']:
        names = {e['x'] for e in T['gram'][part]}
        X, Y = only({**C, 'm2': 0.}, names), only({**D, 'm2': 0.}, names)
        bX, bY = beta(X), beta(Y)
        l, r = product(X, bY, part), product(bX, Y, part)
        size = math.sqrt(abs(product(X, X, part) * product(bY, bY, part))) + math.sqrt(abs(product(Y, Y, part) * product(bX, bX, part)))
        if not abs(l - r) <= 1e-11 * size:
            bad['self-adjoint ' + part] = [(l, r, size)]
    return {k: v for k, v in bad.items() if v}


def probe():
    """Is the beta function of dphi the one recorded as a known finding?"""
    rng = np.random.default_rng(5)
    C = only(point(rng), ('quqd1',))
    U = {s: unitary(rng) for s in SPECIES}
    global DEVIATION
    for DEVIATION in (0, 1):
        if not differ(beta(rotate(C, U)), rotate(beta(C), U), ('dphi',)):
            return DEVIATION
    DEVIATION = 0
    return 0


# -- histories -------------------------------------------------------------------------
SMS = {'A': True, 'B': True, 'M': False, 'N': False}


def sm_atom(n):
    return couplings(np.random.default_rng([ord(n), 3]), m2=not SMS[n], yuk=.12, gauge=.5)


def atoms(seed):
    out = {}
    rng = np.random.default_rng([seed, 7])
    out['all'] = coefficients(rng)
    keys = list(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs)
    for n, num in enumerate((1, 3, 40, 400)):
        out[f'some{n}'] = coefficients(rng, keys=[str(k) for k in rng.choice(keys, num, replace=False)])
    names = sorted({k.split('_')[0] for k in keys})
    for n in range(4):
        c = str(rng.choice(names))
        out[f'class{n}'] = coefficients(rng, keys=[k for k in keys if k.split('_')[0] == c])
    out['zero'] = coefficients(rng, keys=[])
    return out


_V = {}


def group(h):
    """Unitary matrices of the rotation h; Uq = Uu is in the tables."""
    U = {}
    for s, p, ph in zip(SPECIES, h['perm'], h['ph']):
        t = 'q' if s == 'u' else s
        if t not in _V:
            _V[t] = np.linalg.qr(np.random.default_rng(ord(t)).normal(size=(3, 3)))[0]
        V = _V[t]
        P = np.zeros((3, 3))
        for i in range(3):
            P[i, p[i] - 1] = 1
        U[s] = V @ P @ V.T * np.exp(2j * math.pi * ph / 7)
    return U


def evolve(C, k, n, rnd):
    s = math.exp(rnd.uniform(-2, 9))
    t = s * math.exp(n * TICK)
    if k == 'll':
        return rge.smeft_evolve_leadinglog(C, s, t)
    return rge.smeft_evolve(C, s, t, newphys=(k == 'int'), **TIGHT)


def perms(h):
    return dict(perm=[list(x) for x in h['perm']], ph=list(h['ph']))


def canonical(args):
    sm, C, sym, w = args
    rnd = random.Random(1)
    X = {**C, **sm_atom(sm)}
    for l in w:
        X = evolve(X, l['k'], l['n'], rnd)
    if sym['cp']:
        X = cp(X)
    X = rotate(X, group(perms(sym['rot'])))
    for i in range(3):
        if sym['refl'][i]:
            X = reflect(X, i)
    X = loops(X, 2.**sym['loop'])
    return mass(X, 3.**sym['mass'])


def replay(args):
    hist, at, seed = args
    rnd = random.Random(seed)
    reg, out = {}, []
    for e in hist:
        k = e['k']
        if k == 'new':
            X = {**at[e['atom']], **sm_atom(e['sm'])}
        elif k == 'twin':
            o = e['out']
            X = canonical((o['sm'], at[e['atom']], o['sym'], []))
        else:
            Y = reg[e['p' if k == 'lin' else 'q']]
            before = {n: np.array(v) for n, v in Y.items()}
            if k == 'run':
                X = evolve(Y, e['x'], e['n'], rnd)
            elif k == 'rot':
                X = rotate(Y, group(perms(e['h'])))
            elif k == 'cp':
                X = cp(Y)
            elif k == 'refl':
                X = reflect(Y, e['i'] - 1)
            elif k == 'loop':
                X = loops(Y, 2.**e['d'])
            elif k == 'mass':
                X = mass(Y, 3.**e['d'])
            elif k == 'lin':
                X = combine(Y, e['ca'], reg[e['q']], e['cb'])
            elif k == 'pack':
                items = list(Y.items())
                rnd.shuffle(items)
                kind = rnd.randrange(3)
                X = {n: np.array(v) if kind == 0 else (complex(v) if np.ndim(v) == 0 else np.asfortranarray(v)) if kind == 1
                     else (np.asarray(v).real.copy() if not np.any(np.asarray(v).imag) else v) for n, v in items}
            if any(not np.array_equal(before[n], Y[n]) for n in before):
                raise Violation('the input was changed')
        if set(X) != set(T['ops']) | set(T['scalars']):
            raise Violation(('names', sorted(set(X) ^ (set(T['ops']) | set(T['scalars'])))))
        reg[e['r']] = X
        out.append(X)
    return out


def key(o, t):
    return repr((o['sm'], t['atom'], sorted((k, repr(v)) for k, v in o['sym'].items()), [(l['k'], l['n']) for l in o['w']]))


def cfg(mod, at, sms, rots, maxlen, regs, lengths, extra, **kw):
    body = (f'MC_SMs == {" @@ ".join(chr(34) + n + chr(34) + " :> " + ("TRUE" if v else "FALSE") for n, v in sms.items())}\n'
            f'MC_Rots == {rots}\nMC_Atoms == {wilsonlib.tla(set(at))}\nMC_Lengths == {lengths}\n')
    spec = 'GSpec' if mod.endswith('Gen') else 'Spec'
    return lambda more='': tlc.run('MC', f'SPECIFICATION {spec}\nCONSTANTS\n SMs <- MC_SMs\n Rots <- MC_Rots\n Atoms <- MC_Atoms\n Lengths <- MC_Lengths\n'
                                   f' MaxLen = {maxlen}\n Regs = {regs}\n' + extra, files={'MC.tla': tlc.model('MC', body + more, mod)}, **kw)


def model(c):
    R = '{[perm |-> <<<<2,1,3>>, <<2,1,3>>, Id3, Id3, <<2,3,1>>>>, ph |-> <<0,0,3,0,1>>], [perm |-> <<Id3, Id3, Id3, Id3, <<2,1,3>>>>, ph |-> <<1,1,0,0,0>>]}'
    more = ('Small == TLCGet("level") <= %d /\\ \\A r \\in Live : obj[r].sym.rot.ph[1] < 3 /\\ obj[r].sym.rot.ph[3] \\in {0, 3, 4} /\\ obj[r].sym.rot.ph[5] < 3\n')
    run = cfg('SmeftFlow', ['a'], {'A': True}, R, 9, '{1}', '{-1, 2}', 'CONSTRAINT Small\nINVARIANTS Reduced Commute Involution\n', workers=8)
    c.model(run(more % c.n(5, 6)), 'SmeftFlow')
    run = cfg('SmeftFlow', ['a', 'b'], {'A': True, 'M': False}, '{IdRot}', 2, '{1,2}', '{-1, 1}', 'CONSTRAINT Small\nINVARIANTS Reduced Commute\n', workers=8)
    c.model(run('Small == TLCGet("level") <= %d /\\ \\A r \\in Live : obj[r].sym.mass = 0 /\\ obj[r].sym.refl = <<FALSE,FALSE,FALSE>>\n' % c.n(4, 5)), 'SmeftFlow_linear')


def sample_rots(seed, n=6):
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        p = [rnd.sample([1, 2, 3], 3) if rnd.random() < .6 else [1, 2, 3] for _ in range(5)]
        ph = [rnd.randrange(7) if rnd.random() < .6 else 0 for _ in range(5)]
        p[1], ph[1] = p[0], ph[0]      # see the known finding
        out.append(dict(perm=p, ph=ph))
    return '{' + ', '.join(wilsonlib.tla(x) for x in out) + '}'


def histories(c, at, num, depth, seed):
    run = cfg('SmeftFlowGen', at, SMS, sample_rots(seed), 24, '{1,2,3}', '{-3,-2,-1,1,2,3,0}',
              f' Depth = {depth}\nINVARIANTS Emit Reduced\n', workers=1, simulate=num, depth=6 * depth, seed=seed)
    r = run()
    c.model(r)
    return tlc.printed(r.out, 'BEH')


def flows(c):
    at = atoms(c.seed)
    hists = []
    for i in range(c.n(1, 6)):
        hists += histories(c, at, c.n(90, 200), 14, c.seed * 10 + i)
    c.count('histories', len(hists))
    c.sample(dict(history=[{k: v for k, v in e.items() if k != 'out'} for e in hists[0]]))
    outs = results(c, 'run', pmap(replay, [(h, at, n) for n, h in enumerate(hists)]))
    need = {}
    for h in hists:
        for e in h:
            for t in e['out']['t']:
                need.setdefault(key(e['out'], t), (e['out']['sm'], at[t['atom']], e['out']['sym'], e['out']['w']))
    val = dict(zip(need, results(c, 'canonical', pmap(canonical, list(need.values())))))
    for h, out in zip(hists, outs):
        if out is None:
            continue
        c.trace()
        mag = {}
        for n, (e, got) in enumerate(zip(h, out)):
            o = e['out']
            # the size of coefficients that entered: remnants of cancellations
            big = max(np.max(np.abs(v)) for k, v in got.items() if k not in SM)
            mag[e['r']] = max([big] + [30 * mag[e[x]] for x in 'pq' if x in e])
            V = [val[key(o, t)] for t in o['t']]
            if any(v is None for v in V):
                continue
            if V:
                want = {k: V[0][k] if k in SM else sum(t['coef'] * v[k] for t, v in zip(o['t'], V)) for k in V[0]}
            else:
                want = {k: got[k] if k in SM else 0 * got[k] for k in got}
            c.count('comparisons')
            s = max(mag[e['r']], 1e-30)
            bad = differ({k: v if k in SM else v / s for k, v in got.items()}, {k: v if k in SM else v / s for k, v in want.items()}, tol=2e-8)
            if bad:
                c.violation('flow', dict(diff=bad[:5], step=n, sm=o['sm'], terms=o['t'], sym=o['sym'], word=o['w'],
                                         history=[{k: v for k, v in x.items() if k != 'out'} for x in h[:n + 1]]))


# -- the class -------------------------------------------------------------------------
def default_basis(C):
    """Rotation to the basis with diagonal down-type and lepton mass matrices."""
    v = 246.22
    Me = C['Ge'] - C['ephi'] * v**2 / 2
    Mu = C['Gu'] - C['uphi'] * v**2 / 2
    Md = C['Gd'] - C['dphi'] * v**2 / 2
    UeL, _, UeR = ckmutil.diag.msvd(v / math.sqrt(2) * Me)
    UuL, _, UuR = ckmutil.diag.msvd(v / math.sqrt(2) * Mu)
    UdL, _, UdR = ckmutil.diag.msvd(v / math.sqrt(2) * Md)
    Un, _ = ckmutil.diag.mtakfac(-v**2 * C['llphiphi'])
    UuL, UdL, UuR, UdR = ckmutil.phases.rephase_standard(UuL, UdL, UuR, UdR)
    Un, UeL, UeR = ckmutil.phases.rephase_pmns_standard(Un, UeL, UeR)
    return rotate(C, dict(q=UdL, u=UuR, d=UdR, l=UeL, e=UeR))


def values(C):
    """WCxf coefficients (C12 checks the conversion)."""
    return {k: v for k, v in smeftutil.arrays2wcxf_nonred({k: np.array(v) for k, v in C.items() if k not in SM}).items()
            if k in wcxf.Basis['SMEFT', 'Warsaw'].all_wcs}


def invariant(d):
    """Where neutrinos are massless, the phases of leptons are not fixed by
    the standard form of the mixing matrices, and neither is the phase of
    baryon number: absolute values of coefficients that depend on them."""
    out = {}
    for k, v in d.items():
        n, _, i = k.partition('_')
        f = T['ops'][n]['f']
        q = sum((1 if x['bar'] else -1) for x in f if x['sp'] in 'qud')
        net = {}
        for x, j in zip(f, i):
            if x['sp'] in 'le':
                net[j] = net.get(j, 0) + (1 if x['bar'] else -1)
        out[k] = abs(v) if q or any(net.values()) else v
    return out


def class_case(args):
    seed, n = args
    rng = np.random.default_rng([seed, n, 99])
    num = [None, 1, 3, 30, 300, 0][n % 6]
    hi = float(rng.choice([300., 1000., 5000., 2e4]))
    lo = float(rng.choice([91.1876, 160., 250., 3e4]))
    # sizes that leave the masses of light fermions what they are
    d = inputs.values('SMEFT', 'Warsaw', rng, n=num)
    for k in d:
        if k[1:4] == 'phi' and k[0] in 'ude' and '_' in k:
            d[k] *= 1e-6
    bad = []
    w = inputs.wc('SMEFT', 'Warsaw', hi, d)
    before = dict(w.dict)
    s = SMEFT(w)
    C = {k: np.array(v) for k, v in s.C_in.items()}
    if set(C) != set(T['ops']) | set(T['scalars']):
        bad.append(('C_in', sorted(set(C) ^ (set(T['ops']) | set(T['scalars'])))))
    x = dict_diff(values(C), d, rtol=1e-12)
    if x:
        bad.append(('C_in', x))
    for acc, kw, scale, X in (('leadinglog', {}, lo, rge.smeft_evolve_leadinglog(C, hi, lo)), ('integrate', {}, lo, rge.smeft_evolve(C, hi, lo)),
                              ('integrate', dict(rtol=1e-8, atol=1e-18, method='DOP853'), lo, rge.smeft_evolve(C, hi, lo, rtol=1e-8, atol=1e-18, method='DOP853')),
                              ('leadinglog', {}, hi, C)):
        r = s.run(scale, accuracy=acc, **kw)
        if (r.eft, r.basis, r.scale) != ('SMEFT', 'Warsaw', scale):
            bad.append(('result', r.eft, r.basis, r.scale))
        x = dict_diff(invariant(r.dict), invariant(values(default_basis(X))), rtol=1e-7, atol=1e-9 * max([abs(v) for v in d.values()], default=0) * 1e-3)
        if x:
            bad.append((acc, kw, scale, x))
    # over a short interval both agree
    a, b = s.run(hi * 0.999, accuracy='leadinglog').dict, s.run(hi * 0.999, accuracy='integrate', rtol=1e-9, atol=1e-20).dict
    m = max([abs(v) for v in d.values()], default=0)
    x = dict_diff(invariant(a), invariant(b), rtol=1e-4, atol=1e-6 * m)
    if x:
        bad.append(('short interval', x))
    if dict(w.dict) != before:
        bad.append(('input changed',))
    return bad, hi, lo, {k: str(v) for k, v in list(d.items())[:5]}


def errors(c):
    w = inputs.wc('SMEFT', 'Warsaw', 1e3, {'G': 1e-8})
    for what, f in (('accuracy', lambda: SMEFT(w).run(91., accuracy='exact')), ('eft', lambda: SMEFT(inputs.wc('WET', 'JMS', 91., {}))),
                    ('basis', lambda: SMEFT(inputs.wc('SMEFT', 'Warsaw up', 1e3, {})))):
        try:
            f()
        except ValueError:
            continue
        c.violation('no ValueError', what)


# -- reference ---------------------------------------------------------------------------
def hermitian(G):
    return (G + G.conj().T) / 2


REFS = [f'beta {n}' for n in range(3)] + [f'run {a} {x}' for a in ('leadinglog', 'integrate') for x in ('1000 91.1876', '5000 300', '300 2000')]


def ref_names():
    return REFS


def ref_case(name):
    if T is None:
        tables()
    if name.startswith('beta'):
        keys = list(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs)
        re = inputs.real_keys('SMEFT', 'Warsaw')
        C = smeftutil.wcxf2arrays_symmetrized(ref.dense('C15' + name, keys, re))
        x = ref.dense('C15sm' + name, ['g', 'gp', 'gs', 'Lambda', 'm2'], ['g', 'gp', 'gs', 'Lambda', 'm2'])
        C.update({k: abs(v) if k != 'm2' else v for k, v in x.items()})
        for k in ('Gu', 'Gd', 'Ge'):
            y = ref.dense('C15y' + name + k, [f'{i}{j}' for i in range(3) for j in range(3)])
            C[k] = np.array([[y[f'{i}{j}'] for j in range(3)] for i in range(3)])
        # see the known finding: there the two orderings are the same
        C['Gu'] = hermitian(C['Gu'])
        b = beta(C)
        out = {k: complex(b[k]) for k in T['scalars']}
        for k in b:
            if k in T['ops']:
                for i in np.ndindex(*np.shape(b[k])):
                    out[k + '_' + ''.join(str(j + 1) for j in i)] = complex(np.asarray(b[k])[i])
        return out
    _, acc, a, b = name.split()
    keys = list(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs)
    d = ref.dense('C15' + name, keys, inputs.real_keys('SMEFT', 'Warsaw'), 1e-8, lambda k: 1e-6 if k.split('_')[0] in ('uphi', 'dphi', 'ephi') else 1)
    return invariant(SMEFT(inputs.wc('SMEFT', 'Warsaw', float(a), d)).run(float(b), accuracy=acc).dict)


def run(c):
    c.model(tables())
    model(c)
    run_ref(c, 'C15', globals(), 1e-6)
    dev = probe()
    if dev:
        c.violation(DPHI, 'not covariant under flavour rotations: (Gu Gu^dagger Gu)_pt instead of (Gu^dagger Gu Gu^dagger)_pt')
    jobs = [(c.seed * 1000 + n, dev, n % 3 == 2) for n in range(c.n(48, 600))]
    for j, bad in zip(jobs, results(c, 'beta', pmap(law, jobs))):
        c.count('points')
        for k, v in (bad or {}).items():
            c.violation('beta: ' + k, dict(diff=v[:5], seed=j[0]))
    flows(c)
    errors(c)
    jobs = [(c.seed, n) for n in range(c.n(12, 120))]
    for r in results(c, 'SMEFT', pmap(class_case, jobs)):
        if r and r[0]:
            c.violation('SMEFT.run', dict(diff=r[0][:4], scales=r[1:3], some_values=r[3]))
        c.count('points of the class')
    c.assumptions += ['The phases of leptons (with massless neutrinos) and of baryon number are not fixed by the definition of the basis',
                      'Flavour rotations of histories rotate left- and right-handed up-type quarks equally, because of the known finding; single points use general rotations',
                      'Beta functions are observed as the leading logarithm of a suitable ratio of scales']
