"""C19: flavour thresholds (modules Threshold and Paths)."""
import numpy as np
import tlc
import inputs
import paths
from lib import pmap, results
from wilson import wcxf

FAM = {'WET': ['JMS', 'flavio', 'Bern', 'FlavorKit'], 'WET-4': ['JMS', 'flavio', 'Bern'], 'WET-3': ['JMS', 'flavio', 'Bern']}
MOVES = dict(down=7, tr=5, same=1, pack=2, lin=2, cp=1, over=2)
LEFT = {}


def tables(c):
    r = tlc.run('Threshold', 'SPECIFICATION Spec\nPOSTCONDITION Write\n', expect_out=True)
    c.model(r, 'Threshold')
    for e, t in zip(r.data['tower'], r.data['left']):
        LEFT[e] = {o: set(map(str, x)) for o, x in t.items()}


def exists(e, key):
    o, _, idx = key.partition('_')
    return not idx or idx in LEFT[e][o]


def crossing(args):
    """Every coefficient of a theory: kept exactly if its flavours exist."""
    e, to, seed, par, num = args
    rng = np.random.default_rng([seed, len(e) + ord(e[-1])])
    d = inputs.values(e, 'JMS', rng, n=num)
    scale = float(rng.uniform(1, 20))
    w = inputs.wc(e, 'JMS', scale, d)
    r = w.match(to, 'JMS', **({'parameters': dict(par)} if par else {}))
    got = r.dict
    want = {k: v for k, v in d.items() if exists(to, k)}
    bad = [k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)]
    if (r.eft, r.basis, r.scale) != (to, 'JMS', scale) or w.dict != d:
        bad.append((r.eft, r.basis, r.scale))
    return [(k, got.get(k), want.get(k)) if isinstance(k, str) else k for k in bad[:5]]




def run(c):
    tables(c)
    for e in ('WET', 'WET-4', 'WET-3', 'WET-2'):
        for k in wcxf.Basis[e, 'JMS'].all_wcs:
            if not exists(e, k):
                raise RuntimeError(('definition of the basis', e, k))
    jobs = [(e, to, c.seed * 100 + n, paths.PARAMS[n % 4], [None, None, 300, 40, 1][n % 5])
            for e, to in (('WET', 'WET-4'), ('WET-4', 'WET-3'), ('WET-3', 'WET-2')) for n in range(c.n(10, 200))]
    for j, bad in zip(jobs, results(c, 'crossing', pmap(crossing, jobs))):
        c.count('crossings')
        if bad:
            c.violation(f'crossing {j[0]} -> {j[1]}', dict(diff=bad, seed=j[2], num=j[4]))
    at = paths.atoms(c.seed, FAM)
    hs = paths.histories(c, at, c.n(120, 2000), 14, c.seed * 10, MOVES, dict(none={'none'}), maxword=3)
    sc = [2., 4.2, 1.3, 91.1876]
    c.count('histories', len(hs))
    c.count('crossings in histories', sum(e['k'] == 'down' for h in hs for e in h))
    paths.compare(c, hs, at, [paths.PARAMS[n % 4] for n in range(len(hs))], [sc[n // 4 % 4] for n in range(len(hs))], {}, 'thresholds')
