#!/usr/bin/env python3
"""check.py <property id> | --setup. Tier from VERIF_TIER, seed from VERIF_SEED."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot

if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        print(boot.build_shim())
        sys.exit(0)
    boot.reexec()
    from dst import runner
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = os.environ.get('VERIF_SEED', '1')
    print('property %s tier %s seed %s' % (sys.argv[1], tier, seed), flush=True)
    sys.exit(runner.check(sys.argv[1], tier if tier in ('quick', 'thorough') else 'quick', seed))
