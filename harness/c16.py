"""C16: translations between bases (module Paths)."""
import numpy as np
import ckmutil.ckm
import ckmutil.diag
import tlc
import ref
import inputs
import paths
import c15
from lib import pmap, results
from c14 import run_ref
from wilsonlib import tla
from wilson import wcxf
from wilson.parameters import p as DEFAULT
from wilson.util import smeftutil

WET = {'WET': ['JMS', 'flavio', 'Bern', 'FlavorKit'], 'WET-4': ['JMS', 'flavio', 'Bern'], 'WET-3': ['JMS', 'flavio', 'Bern']}
SMEFT = {'SMEFT': ['Warsaw', 'Warsaw up', 'Higgs-Warsaw up']}
MOVES = dict(tr=8, same=1, cp=1, pack=2, lin=4, over=1)


def model(c):
    """The normal forms are sound (small instances)."""
    for name, at, lev in (('wet', '[a |-> [eft |-> "WET", basis |-> "flavio"], b |-> [eft |-> "WET-4", basis |-> "JMS"]]', c.n(4, 5)),
                          ('smeft', '[a |-> [eft |-> "SMEFT", basis |-> "Higgs-Warsaw up"]]', c.n(5, 6))):
        body = (f'MC_Atoms == {at}\nMC_Secs == [s |-> {{"sb", "db"}}, t |-> {{"sb"}}]\n'
                f'Small == TLCGet("level") <= {lev} /\\ \\A r \\in Live : Cardinality(DOMAIN obj[r].t) <= 2 /\\ '
                '\\A x \\in DOMAIN obj[r].t : Len(x[2]) <= 3 /\\ obj[r].t[x] \\in -3..3\n')
        r = tlc.run('MC', 'SPECIFICATION Spec\nCONSTANTS\n Atoms <- MC_Atoms\n SecSets <- MC_Secs\n Regs = {1,2}\n MaxWord = 3\n'
                    'CONSTRAINT Small\nINVARIANTS Typed Loops Bounded\n', files={'MC.tla': tlc.model('MC', body, 'Paths')}, workers=8)
        c.model(r, 'Paths_' + name)


# -- numbers that define the bases ------------------------------------------------
def triples():
    return sorted(wcxf.Translator.instances)


def ref_names():
    out = []
    for e, a, b in [(e, a, b) for e in ('SMEFT', 'WET', 'WET-4', 'WET-3') for a in ('Warsaw', 'Warsaw up', 'Higgs-Warsaw up', 'JMS', 'Bern', 'flavio', 'FlavorKit')
                    for b in ('Warsaw', 'Warsaw up', 'Warsaw mass', 'Higgs-Warsaw up', 'JMS', 'Bern', 'flavio', 'FlavorKit', 'formflavor', 'EOS')]:
        if f'{e}|{a}|{b}' in EDGES:
            out += [f'{e}|{a}|{b}|{n}' for n in range(2)]
    return out


EDGES = {'SMEFT|Warsaw|Warsaw up', 'SMEFT|Warsaw up|Warsaw', 'SMEFT|Warsaw|Warsaw mass', 'SMEFT|Higgs-Warsaw up|Warsaw up',
         'SMEFT|Warsaw up|Higgs-Warsaw up', 'SMEFT|Higgs-Warsaw up|Warsaw', 'SMEFT|Warsaw|Higgs-Warsaw up',
         'WET|JMS|EOS', 'WET|JMS|formflavor', 'WET|JMS|FlavorKit', 'WET|FlavorKit|JMS', 'WET|FlavorKit|flavio'} | {
    f'{e}|{a}|{b}' for e in ('WET', 'WET-4', 'WET-3') for a in ('JMS', 'flavio', 'Bern') for b in ('JMS', 'flavio', 'Bern') if a != b}


def ref_case(name):
    e, a, b, n = name.split('|')
    d = ref.dense(name, wcxf.Basis[e, a].all_wcs, inputs.real_keys(e, a), inputs.SCALE.get(a, inputs.SCALE.get(e)))
    return paths.translate(e, a, b, paths.SCALES[e][int(n)], d, paths.PARAMS[int(n)])


# -- SMEFT: the definition as a change of the quark doublet's basis ------------------
def definition(args):
    """Warsaw up and Warsaw mass from the definition."""
    seed, par, pattern = args
    rng = np.random.default_rng(seed)
    C = c15.coefficients(rng, pattern=pattern)
    d = smeftutil.arrays2wcxf_nonred({k: v for k, v in C.items() if k in smeftutil.WC_keys_0f + smeftutil.WC_keys_2f + smeftutil.WC_keys_4f})
    P = {**DEFAULT, **par}
    V = ckmutil.ckm.ckm_tree(P['Vus'], P['Vub'], P['Vcb'], P['gamma'])
    one = np.eye(3)
    bad = []
    for a, b, Uq in (('Warsaw', 'Warsaw up', V.conj().T), ('Warsaw up', 'Warsaw', V)):
        got = smeftutil.wcxf2arrays_symmetrized(paths.translate('SMEFT', a, b, 1000., d, par))
        want = c15.rotate({k: v for k, v in C.items() if k in got}, dict(q=Uq, u=one, d=one, l=one, e=one))
        for k in want:
            x = abs(got[k] - want[k]).max() if np.ndim(want[k]) else abs(got[k] - want[k])
            if not x < 1e-9 * max(1, np.abs(want[k]).max()):
                bad.append((a, b, k, x))
    got = paths.translate('SMEFT', 'Warsaw', 'Warsaw mass', 1000., d, par)
    arr = smeftutil.wcxf2arrays({k: v for k, v in got.items()})
    for k, v in d.items():
        n = k.split('_')[0]
        if n not in ('uphi', 'uG', 'uW', 'uB', 'llphiphi') and abs(got.get(k, 0) - v) > 1e-12:
            bad.append(('Warsaw', 'Warsaw mass', k, got.get(k, 0), v))
    for n in ('uphi', 'uG', 'uW', 'uB'):
        x = abs(arr.get(n, np.zeros((3, 3))) - V @ C[n]).max()
        if not x < 1e-9:
            bad.append(('Warsaw', 'Warsaw mass', n, x))
    m = sorted(np.linalg.svd(C['llphiphi'], compute_uv=False))
    g = smeftutil.wcxf2arrays_symmetrized({k: v for k, v in got.items() if k.startswith('llphiphi')})['llphiphi']
    if not (abs(g - np.diag(np.diag(g))).max() < 1e-9 and np.allclose(sorted(abs(np.diag(g))), m, rtol=1e-9, atol=1e-12)):
        bad.append(('Warsaw', 'Warsaw mass', 'llphiphi', g, m))
    return bad


def run(c):
    c.model(c15.tables())
    model(c)
    run_ref(c, 'C16', globals(), 1e-8)
    DEF = [(c.seed * 1000 + 10 * n + m, p, k) for n, p in enumerate(paths.PARAMS * c.n(1, 8)) for m, k in enumerate(c15.PATTERNS)]
    for j, bad in zip(DEF, results(c, 'definition', pmap(definition, DEF))):
        c.count('definitions')
        for b in bad or []:
            c.violation(f'definition {b[0]} -> {b[1]}: {b[2]}', dict(diff=b, case=j))
    for i, (fam, num, depth) in enumerate(((WET, c.n(64, 1200), 16), (SMEFT, c.n(24, 400), 12))):
        at = paths.atoms(c.seed, fam, nl=False)
        hs = paths.histories(c, at, num, depth, c.seed * 10 + i, MOVES, dict(none={'none'}), maxword=4)
        eft = lambda h: h[0]['out']['eft']
        pars = [paths.PARAMS[(n + c.seed) % len(paths.PARAMS)] for n in range(len(hs))]
        scales = [s[n // 4 % len(s)] for n, h in enumerate(hs) for s in [paths.SCALES[eft(h)]]]
        c.count('histories', len(hs))
        paths.compare(c, hs, at, pars, scales, {}, 'translations')
    c.assumptions += ['The majorana mass operator is excluded from histories, since its diagonal form in Warsaw mass is not linear in it; it is compared with its singular values']
