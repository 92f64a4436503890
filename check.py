#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import run
    m = importlib.import_module(prop.lower())
    return run.check(prop, m.STAGES, getattr(m, 'LEVEL', 'exploration'), m.RULE, tier, seed,
                     assumptions=getattr(m, 'ASSUMPTIONS', ()), flavours=getattr(m, 'FLAVOURS', ('asan',)),
                     harness=getattr(m, 'HARNESS', ('vh', 'vc')))


sys.exit(main())
