"""Reference numbers: outputs of the pinned implementation for fixed dense
inputs, the only available form of the `published' anomalous dimensions, beta
functions, matching conditions and basis definitions (see DESIGN.md).  The
inputs are computed from names, only outputs are stored."""
import gzip
import hashlib
import json
import os
import struct
import numpy as np
from lib import VERIF

DIR = os.path.join(VERIF, 'ref')


def number(tag, key):
    """Two numbers in +-[0.3, 1.3], from the names alone."""
    h = hashlib.sha256(f'{tag}|{key}'.encode()).digest()
    a, b, s = struct.unpack('>IIB', h[:9])
    x = (0.3 + a / 2**32) * (1 if s & 1 else -1)
    y = (0.3 + b / 2**32) * (1 if s & 2 else -1)
    return x, y


def dense(tag, keys, real=(), mag=1.0, scale=None):
    """Deterministic coefficients for all keys.  scale: key -> factor."""
    d = {}
    for k in keys:
        x, y = number(tag, k)
        f = mag * (scale(k) if scale else 1)
        d[k] = f * x if k in real else complex(f * x, f * y)
    return d


def path(check):
    return os.path.join(DIR, check + '.json.gz')


def save(check, data):
    os.makedirs(DIR, exist_ok=True)
    out = {n: {k: [float('%.10g' % complex(v).real), float('%.10g' % complex(v).imag)] for k, v in sorted(d.items()) if v != 0}
           for n, d in data.items()}
    with open(path(check), 'wb') as f:
        with gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as g:
            g.write(json.dumps(out, sort_keys=True).encode())


def load(check):
    with gzip.open(path(check)) as f:
        d = json.load(f)
    return {n: {k: complex(*v) for k, v in x.items()} for n, x in d.items()}
