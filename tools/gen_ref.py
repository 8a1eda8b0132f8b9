"""Writes /verif/ref/<check>.json.gz from the implementation in /repo; run only
on purpose: python tools/gen_ref.py C14 ..."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import boot
boot.boot()
import ref
from lib import pmap

for c in sys.argv[1:]:
    m = importlib.import_module(c.lower())
    names = m.ref_names()
    out = {}
    for n, (kind, v) in zip(names, pmap(m.ref_case, names)):
        assert kind == 'ok', v
        out[n] = v
    ref.save(c, out)
    print(c, {n: len(v) for n, v in out.items()})
