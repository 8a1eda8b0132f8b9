"""Entry point of all checks: main.py PROPERTY [--tier quick|thorough]"""
import os
import sys
import traceback

import logging
logging.disable(logging.ERROR)
import boot   # first: sets thread limits before numpy is loaded
from lib import Check, from_wilson


def main(argv):
    import importlib
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = Check(pid, tier, seed)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        boot.boot()
        mod = importlib.import_module(pid.lower())
        mod.run(c)
    except Exception as e:
        if from_wilson(e):
            c.violation('unexpected exception', ''.join(traceback.format_exception(e))[-3000:])
        else:
            traceback.print_exc()
            print('ERROR: the check could not be carried out')
            return 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
