"""Histories of module Paths on the real objects (C16, C17, C19)."""
import io
import random
from functools import lru_cache
import numpy as np
import scipy.optimize
import ckmutil.ckm
import tlc
import inputs
from lib import Violation, pmap, results
from wilsonlib import tla
from wilson import wcxf
from wilson.parameters import p as DEFAULT

HUB = {'SMEFT': 'Warsaw'}
PARAMS = [{},
          {'alpha_s': 0.1235, 'm_b': 4.35, 'm_c': 1.31, 'm_s': 0.082, 'alpha_e': 1 / 120., 'Vus': 0.219, 'Vub': 4.1e-3, 'Vcb': 0.0405, 'gamma': 0.9,
           'GF': 1.1e-5, 'm_W': 79.1, 'm_Z': 90.3, 'm_h': 119., 'm_e': 0.02, 'm_mu': 0.3, 'm_tau': 1.5, 'm_d': 0.02, 'm_u': 0.01},
          {'gamma': 2.1, 'Vcb': 0.1, 'Vub': 0.03},
          {'m_b': 4.05, 'GF': 1.2e-5, 'm_mu': 0.09, 'm_Z': 92.}]
SCALES = {'SMEFT': [91.1876, 1000., 160.], 'WET': [91.1876, 4.8, 160., 2.], 'WET-4': [4.2, 2., 1.3], 'WET-3': [1.3, 1., 2.]}
SECS = {'SMEFT': None, 'WET': None}


@lru_cache(None)
def conj_gamma(Vus, Vub, Vcb, gamma):
    """gamma of the complex conjugate CKM matrix (not exactly -gamma for the
    library function in use)."""
    want = np.angle(ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma)[0, 2].conj())
    f = lambda x: np.sin(np.angle(ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, x)[0, 2]) - want)
    g = scipy.optimize.brentq(f, -gamma - 0.05, -gamma + 0.05, xtol=1e-15)
    err = abs(ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, g) - ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma).conj()).max()
    if err > 1e-11:
        raise RuntimeError(('no conjugate CKM matrix', err))
    return g


def cp_params(par):
    P = {**DEFAULT, **par}
    return {**par, 'gamma': conj_gamma(P['Vus'], P['Vub'], P['Vcb'], P['gamma'])}


def atoms(seed, family, nl=True):
    """name -> (eft, basis, coefficients)"""
    out = {}
    for eft, bases in family.items():
        for basis in bases:
            b = wcxf.Basis[eft, basis]
            rng = np.random.default_rng([seed, sum(map(ord, eft + basis))])
            keys = [k for k in b.all_wcs if nl or not k.startswith('llphiphi')]
            s = list(b.sectors)[int(rng.integers(len(b.sectors)))]
            re = inputs.real_keys(eft, basis)
            for n, d in enumerate((inputs.values(eft, basis, rng, keys=keys), inputs.values(eft, basis, rng, keys=keys, n=40),
                                   inputs.values(eft, basis, rng, keys=[k for k in b.sectors[s] if k in keys]),
                                   inputs.values(eft, basis, rng, keys=keys, n=2),
                                   {k: 1j * v.imag for k, v in inputs.values(eft, basis, rng, keys=[k for k in keys if k not in re], n=100).items()},
                                   {str(k): int(rng.integers(1, 4)) * (1 if eft != 'SMEFT' else 1e-8) for k in rng.choice(keys, 20, replace=False)})):
                out[f'{eft}_{basis}_{n}'.replace('-', '').replace(' ', '_')] = (eft, basis, d)
    return out


def histories(c, at, num, depth, seed, moves, secs, regs=4, maxword=4):
    kinds = dict(over=1, tr=0, same=0, sec=0, down=0, cp=0, pack=0, lin=0)
    kinds.update(moves)
    body = (f'MC_Atoms == {tla({k: dict(eft=v[0], basis=v[1]) for k, v in at.items()})}\n'
            f'MC_Secs == {tla({k: set(v) for k, v in secs.items()})}\nMC_Moves == {tla(kinds)}\n')
    # a move that does not apply costs a step
    r = tlc.run('MC', 'SPECIFICATION GSpec\nCONSTANTS\n Atoms <- MC_Atoms\n SecSets <- MC_Secs\n Moves <- MC_Moves\n'
                f' Regs = {{{",".join(map(str, range(1, regs + 1)))}}}\n MaxWord = {maxword}\n Depth = {depth}\nINVARIANTS Emit Typed\n',
                files={'MC.tla': tlc.model('MC', body, 'PathsGen')}, simulate=num, depth=6 * depth, seed=seed, workers=1)
    c.model(r)
    hs = tlc.printed(r.out, 'BEH')
    if len(hs) < num // 3:
        raise RuntimeError(f'only {len(hs)} of {num} histories')
    return hs


def repack(d, eft, basis, scale, rnd):
    """Other representations of the same coefficients."""
    kind = rnd.randrange(5)
    items = list(d.items())
    rnd.shuffle(items)
    d = dict(items)
    if kind == 0:
        keys = list(wcxf.Basis[eft, basis].all_wcs)
        for k in rnd.sample(keys, min(20, len(keys))):
            d.setdefault(k, rnd.choice([0, 0.0, 0j]))
        return d
    if kind == 1:
        return {k: complex(v) for k, v in d.items()}
    if kind == 2:
        return {k: (np.complex128(v) if complex(v).imag else np.float64(complex(v).real)) for k, v in d.items()}
    if kind == 4:
        return {k: v for k, v in d.items() if v != 0}
    return wcxf.WC.load(io.StringIO(inputs.wc(eft, basis, scale, d).dump(fmt='json'))).dict


def translate(eft, a, b, scale, d, par, S=None):
    kw = {'parameters': dict(par)} if par else {}
    if S is not None:
        kw['sectors'] = S
    w = inputs.wc(eft, a, scale, d)
    before = dict(w.dict)
    r = w.translate(b, **kw)
    if r.eft != eft or r.basis != b or r.scale != scale:
        raise Violation(('wrong type', r.eft, r.basis, r.scale))
    if list(w.dict.items()) != list(before.items()):
        raise Violation('input changed')
    out = r.dict
    bad = set(out) - set(wcxf.Basis[eft, b].all_wcs)
    if bad:
        raise Violation(('coefficients that do not exist in the basis', eft, a, b, sorted(bad)[:5]))
    return out


def keep(eft, basis, d):
    keys = wcxf.Basis[eft, basis].all_wcs
    return {k: v for k, v in d.items() if k in keys}


@lru_cache(None)
def sector_of(eft, basis):
    return {k: s for s, ks in wcxf.Basis[eft, basis].sectors.items() for k in ks}


def cut(eft, basis, d, S):
    so = sector_of(eft, basis)
    return {k: v for k, v in d.items() if so.get(k) in S}


def canonical(args):
    """Value of an atom projected on the bases of a word, in the end basis."""
    eft, basis, d, cp, word, eft2, basis2, scale, par = args
    if cp:
        d = {k: complex(v).conjugate() if complex(v).imag else v for k, v in d.items()}
        par = cp_params(par)
    hub = HUB.get(eft, 'JMS')
    at = basis
    go = lambda at, to, d: d if at == to else translate(eft, at, to, scale, d, par)
    for b in word:
        if at != hub and at != b:
            d, at = go(at, hub, d), hub
        d, at = go(at, b, d), b
    if at != basis2:
        if at != hub:
            d, at = go(at, hub, d), hub
        if basis2 != hub:
            d, at = go(hub, basis2, d), basis2
    return keep(eft2, basis2, d)


def replay(args):
    """Runs a history; returns what each step gave."""
    hist, at, scale, par, seed, secs = args
    rnd = random.Random(seed)
    reg, out = {}, []
    for e in hist:
        k, o = e['k'], e['out']
        P = par
        if k == 'new':
            eft, basis, d = at[e['atom']]
            d = dict(d)
            conj = False
        elif k in ('tr', 'sec'):
            q, conj, basis = reg[e['q']]
            S = None
            if k == 'sec':
                S = list(secs[e['S']])
                rnd.shuffle(S)
                S = rnd.choice([list, tuple])(S + S[:rnd.randrange(2)])
            d = translate(o['eft'], basis, e['b'], scale, q, cp_params(par) if conj else par, S)
            if k == 'sec':
                d = cut(o['eft'], e['b'], d, S)
        elif k == 'down':
            q, conj, basis = reg[e['q']]
            up = {'WET-4': 'WET', 'WET-3': 'WET-4', 'WET-2': 'WET-3'}[o['eft']]
            w = inputs.wc(up, basis, scale, q)
            r = w.match(o['eft'], basis, **({'parameters': dict(par)} if par else {}))
            if r.eft != o['eft'] or r.basis != basis or r.scale != scale:
                raise Violation(('wrong type', r.eft, r.basis, r.scale))
            d = r.dict
            bad = set(d) - set(wcxf.Basis[r.eft, basis].all_wcs)
            if bad:
                raise Violation(('coefficients of removed flavours', o['eft'], basis, sorted(bad)[:5]))
        elif k == 'cp':
            # conjugating everything: from now on with the conjugate CKM matrix
            q, conj, basis = reg[e['q']]
            d = {x: complex(v).conjugate() if complex(v).imag else v for x, v in q.items()}
            conj = not conj
        elif k == 'pack':
            q, conj, basis = reg[e['q']]
            d = repack(q, o['eft'], basis, scale, rnd)
        elif k == 'lin':
            p, q = reg[e['p']][0], reg[e['q']][0]
            conj = reg[e['p']][1]
            d = {x: e['ca'] * p.get(x, 0) + e['cb'] * q.get(x, 0) for x in set(p) | set(q)}
        reg[e['r']] = (d, conj, o['basis'])
        out.append(d)
    return out


def worst(eft, basis, got, want, size, rtol=1e-8):
    """Difference relative to the size of what entered, sector by sector."""
    so = sector_of(eft, basis)
    mag = {}
    for k, v in size.items():
        mag[so.get(k)] = max(mag.get(so.get(k), 0), v)
    bad = None
    for k in set(got) | set(want):
        x, y = got.get(k, 0), want.get(k, 0)
        r = abs(x - y) / max(rtol * max(abs(x), abs(y)) + 1e-11 * mag.get(so.get(k), 0), 1e-300)
        if not r <= 1 and (bad is None or not r <= bad[0]):
            bad = (r, k, x, y)
    return bad and bad[1:]


def compare(c, hists, at, pars, scales, secs, what):
    """Replays all histories and compares each step with its normal form."""
    outs = results(c, what, pmap(replay, [(h, at, s, p, n, secs) for n, (h, p, s) in enumerate(zip(hists, pars, scales))]))
    need = {}
    for n, h in enumerate(hists):
        for e in h:
            if e['k'] in ('new', 'cp', 'pack', 'lin'):
                continue
            for t in e['out']['t']:
                key = (t['atom'], e['out']['cp'], tuple(t['w']), e['out']['eft'], e['out']['basis'], scales[n], pars.index(pars[n]))
                need[key] = pars[n]
    keys = list(need)
    jobs = [(*at[k[0]], k[1], k[2], k[3], k[4], k[5], need[k]) for k in keys]
    vals = dict(zip(keys, results(c, what + ' (direct)', pmap(canonical, jobs))))
    for n, (h, out) in enumerate(zip(hists, outs)):
        if out is None:
            continue
        for i, (e, got) in enumerate(zip(h, out)):
            if e['k'] in ('new', 'cp', 'pack', 'lin'):
                continue
            o = e['out']
            want, size = {}, {}
            for t in o['t']:
                v = vals[(t['atom'], o['cp'], tuple(t['w']), o['eft'], o['basis'], scales[n], pars.index(pars[n]))]
                if v is None:
                    break
                for k, x in v.items():
                    want[k] = want.get(k, 0) + t['coef'] * x
                    size[k] = size.get(k, 0) + abs(x) * (abs(t['coef']) or 9)
            else:
                if o['sec'] != ['all']:
                    want = cut(o['eft'], o['basis'], want, o['sec'])
                bad = worst(o['eft'], o['basis'], got, want, size)
                c.count('comparisons')
                if bad:
                    hist = [{k: v for k, v in x.items() if k != 'out'} for x in h[:i + 1]]
                    c.violation(what, dict(diff=bad, eft=o['eft'], basis=o['basis'], terms=o['t'], sec=o['sec'], step=i,
                                           scale=scales[n], parameters=pars[n], history=hist))
                    break
        else:
            c.trace()
    if hists:
        c.sample([{k: v for k, v in e.items()} for e in hists[0][:6]])
