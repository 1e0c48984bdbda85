import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('MC_REPO', '/repo'))

from mc import core


def main():
    args = sys.argv[1:]
    if args[0] == 'replay':
        return core.replay(args[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    prop = args[0]
    for a in args[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        else:
            only = (only or []) + [a]
    return core.run_check(prop, tier, only)


if __name__ == '__main__':
    sys.exit(main())
