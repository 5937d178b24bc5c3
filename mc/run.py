import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, run_map


def main(argv):
    pid = argv[0]
    module = importlib.import_module('mc.checks.' + run_map.module(pid))
    check = module.CHECKS[pid]()
    if '--replay' in argv:
        return core.replay(check, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return core.execute(check, tier if tier in ('quick', 'thorough') else 'quick', seed)


sys.exit(main(sys.argv[1:]))
