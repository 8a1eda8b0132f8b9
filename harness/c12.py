"""C12: SMEFT arrays and non-redundant dictionaries."""
from flavour import run_lib


def run(c):
    run_lib(c, 'smeft', [('SMEFT', 'Warsaw')], c.n(160, 3000), 12)
