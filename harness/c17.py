"""C17: restriction to sectors (modules Restrict and Paths)."""
import random
import numpy as np
import tlc
import inputs
import paths
from lib import Violation, pmap, results, dict_diff
from wilsonlib import tla
from wilson import Wilson, wcxf
from wilson.run.wet import WETrunner
from wilson.run.smeft import SMEFT as SMEFTrun

LADDER = {'SMEFT': [1000., 300., 91.1876], 'WET': [91.1876, 20., 4.2], 'WET-4': [4.2, 3., 1.3], 'WET-3': [1.3, 1.2, 1.]}
FLD = {'WET-4': 'WET4', 'WET-3': 'WET3'}
WET = {'WET': ['JMS', 'flavio', 'Bern', 'FlavorKit'], 'WET-4': ['JMS', 'flavio', 'Bern'], 'WET-3': ['JMS', 'flavio', 'Bern']}
SMEFT = {'SMEFT': ['Warsaw', 'Warsaw up', 'Higgs-Warsaw up']}


def model(c):
    body = ('MC_Atoms == [a |-> [eft |-> "WET", basis |-> "flavio"], b |-> [eft |-> "SMEFT", basis |-> "Warsaw"]]\n'
            'MC_Secs == [SMEFT |-> {"dB=dL=0", "dL=2"}, WET |-> {"sb", "sd", "uc"}, WET4 |-> {"sd", "uc"}, WET3 |-> {"sd"}]\n'
            f'Small == TLCGet("level") <= {c.n(4, 5)}\n')
    r = tlc.run('MC', 'SPECIFICATION Spec\nCONSTANTS\n Atoms <- MC_Atoms\n SectorsOf <- MC_Secs\n NScales = 2\n'
                'CONSTRAINT Small\nINVARIANTS Exact Known\nPROPERTY Shrinks\n', files={'MC.tla': tlc.model('MC', body, 'Restrict')}, workers=8)
    c.model(r, 'Restrict')


def generate(c, at, num, depth, seed, weights):
    body = (f'MC_Atoms == {tla({k: dict(eft=v[0], basis=v[1]) for k, v in at.items()})}\n'
            f'MC_Secs == {tla({FLD.get(e, e): set(wcxf.EFT[e].sectors) for e in LADDER})}\nMC_W == {tla(weights)}\n')
    r = tlc.run('MC', 'SPECIFICATION GSpec\nCONSTANTS\n Atoms <- MC_Atoms\n SectorsOf <- MC_Secs\n NScales = 3\n Weights <- MC_W\n'
                f' Depth = {depth}\nINVARIANTS Emit Exact Known\n', files={'MC.tla': tlc.model('MC', body, 'RestrictGen')},
                simulate=num, depth=8 * depth, seed=seed, workers=1)
    c.model(r)
    hs = tlc.printed(r.out, 'BEH')
    if len(hs) < num // 3:
        raise RuntimeError(f'only {len(hs)} of {num} histories')
    return hs


def spell(S, rnd, seq=True):
    """The same set of sectors written in some order, with repetitions."""
    S = list(S)
    rnd.shuffle(S)
    S = S + S[:rnd.randrange(3)]
    return rnd.choice([list, tuple])(S) if seq else tuple(S)


def step(w, op, at, S, par, rnd):
    """One operation; S None: without restriction."""
    k = op['k']
    kw = {'parameters': dict(par)} if par else {}
    scale = LADDER[at['eft']][at['scale'] - 1]
    if k == 'tr':
        r = w.translate(op['b'], **kw) if S is None else w.translate(op['b'], sectors=spell(S, rnd), **kw)
    elif k == 'run' and w.eft == 'SMEFT':
        r = SMEFTrun(w).run(scale, accuracy='leadinglog')
    elif k == 'run':
        x = WETrunner(w, **kw)
        r = x.run(scale) if S is None else x.run(scale, sectors=spell(S, rnd))
    elif k == 'down':
        r = w.match(op['e'], w.basis, **kw)
    elif k == 'match':
        r = w.match('WET', op['b'], **kw)
    elif k == 'request':
        x = Wilson.from_wc(w)
        x.set_option('smeft_accuracy', 'leadinglog')
        if par:
            x.set_option('parameters', dict(par))
        a = (scale, at['eft'], at['basis'])
        r = x.match_run(*a) if S is None else x.match_run(*a, sectors=spell(S, rnd, False))
    if (r.eft, r.basis, r.scale) != (at['eft'], at['basis'], scale):
        raise Violation(('wrong type', k, r.eft, r.basis, r.scale))
    if S is not None and (k == 'run' or k == 'request' and r.eft != 'SMEFT'):
        so = paths.sector_of(r.eft, r.basis)
        out = {x: v for x, v in r.dict.items() if so.get(x) not in S}
        if out:
            raise Violation(('coefficients outside the sectors', k, at, sorted(S), list(out.items())[:5]))
    return r


def replay(args):
    """A calculation with and without restrictions."""
    h, at, par, seed = args
    rnd = random.Random(seed)
    eft, basis, d = at[h['new']]
    a = b = inputs.wc(eft, basis, LADDER[eft][0], d)
    out = []
    for e in h['steps']:
        S = None if e['S'] == ['all'] else e['S']
        a = step(a, e['op'], e['at'], S, par, rnd)
        b = step(b, e['op'], e['at'], None, par, rnd)
        x = paths.cut(a.eft, a.basis, a.dict, e['secs'])
        y = paths.cut(a.eft, a.basis, b.dict, e['secs'])
        size = {k: abs(v) for k, v in y.items()}
        # rounding: a sum over more or fewer terms inside a sector
        bad = paths.worst(a.eft, a.basis, x, y, size, 1e-9)
        if bad:
            return dict(diff=bad, at=e['at'], op=e['op'], S=e['S'], secs=e['secs'], step=len(out))
        a = inputs.wc(a.eft, a.basis, a.scale, x)
        out.append(len(y))
    return out


def run(c):
    model(c)
    at = {**paths.atoms(c.seed, WET), **paths.atoms(c.seed + 1, {'SMEFT': ['Warsaw', 'Warsaw up']}, nl=False)}
    hs = []
    wet = {k: v for k, v in at.items() if v[0] != 'SMEFT'}
    smeft = {k: v for k, v in at.items() if v[0] == 'SMEFT'}
    for i, (atoms, num, depth, w) in enumerate(((wet, c.n(48, 800), 6, dict(tr=3, run=3, down=4, match=1, request=3)),
                                                 (smeft, c.n(14, 300), 5, dict(tr=2, run=2, down=3, match=4, request=3)),
                                                 (wet, c.n(48, 800), 2, dict(tr=1, run=1, down=1, match=1, request=5)))):
        hs += generate(c, atoms, num, depth, c.seed * 10 + i, w)
    c.count('histories', len(hs))
    pars = [paths.PARAMS[n % 4] for n in range(len(hs))]
    for h, r in zip(hs, results(c, 'sectors', pmap(replay, [(h, at, p, n) for n, (h, p) in enumerate(zip(hs, pars))]))):
        if isinstance(r, dict):
            c.violation('sectors', dict(r, history=h))
        elif r:
            c.trace()
            c.count('coefficients', sum(r))
    c.sample(hs[0])
    # translations alone: longer chains, more of them
    rng = random.Random(c.seed)
    for i, (fam, num) in enumerate(((dict(WET=WET['WET']), c.n(32, 800)), ({'WET-4': WET['WET-4']}, c.n(24, 400)), ({'WET-3': WET['WET-3']}, c.n(24, 400)),
                                    (SMEFT, c.n(16, 300)))):
        eft = next(iter(fam))
        ss = list(wcxf.EFT[eft].sectors)
        secs = {f's{n}': sorted(rng.sample(ss, min(len(ss), [1, 1, 2, 5, 30, 100][n % 6]))) for n in range(40)}
        a = paths.atoms(c.seed + 2, fam, nl=False)
        hs = paths.histories(c, a, num, 10, c.seed * 10 + i + 5, dict(tr=4, sec=8, over=2, pack=1, lin=2), secs, maxword=4)
        pars = [paths.PARAMS[n % 4] for n in range(len(hs))]
        scales = [paths.SCALES[eft][n // 4 % len(paths.SCALES[eft])] for n in range(len(hs))]
        paths.compare(c, hs, a, pars, scales, secs, 'translations of sectors')
    c.assumptions += ['Sector names passed to Wilson.match_run are tuples, as documented',
                      'Restrictions are not applied to the parts of SMEFT before it is run or matched']
