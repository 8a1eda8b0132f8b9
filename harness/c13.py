"""C13: WET arrays, redundant and non-redundant dictionaries."""
from flavour import run_lib


def run(c):
    run_lib(c, 'smeft', [('WET', 'JMS')], c.n(80, 1500), 10)
    run_lib(c, 'jms', [('WET', 'JMS')], c.n(80, 1500), 8)
