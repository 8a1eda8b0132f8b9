"""Input coefficients for the drivers."""
import numpy as np
from wilson import wcxf

SCALE = {'SMEFT': 1e-8, 'JMS': 1e-7, 'flavio': 1e-1, 'Bern': 1e-2, 'FlavorKit': 1e-7}


def real_keys(eft, basis):
    out = set()
    for s, wcs in wcxf.Basis[eft, basis].sectors.items():
        for k, v in wcs.items():
            if v and v.get('real'):
                out.add(k)
    return out


def values(eft, basis, rng, n=None, sectors=None, mag=None, keys=None):
    """Random coefficient dictionary: n coefficients (all if None)."""
    b = wcxf.Basis[eft, basis]
    if keys is None:
        if sectors is None:
            keys = list(b.all_wcs)
        else:
            keys = [k for s in sectors for k in b.sectors[s]]
    if n is not None and n < len(keys):
        keys = [keys[i] for i in sorted(rng.choice(len(keys), n, replace=False))]
    m = mag if mag is not None else SCALE.get(basis, SCALE.get(eft, 1e-7))
    re = real_keys(eft, basis)
    d = {}
    for k in keys:
        x = m * (0.3 + rng.random()) * (1 if rng.random() < .5 else -1)
        if k not in re:
            x = x + 1j * m * (rng.random() - .5) * 2
        d[k] = x
    return d


def wc(eft, basis, scale, d):
    return wcxf.WC(eft=eft, basis=basis, scale=scale, values=wcxf.WC.dict2values(d))
