"""Entry point: run.py CNN quick|thorough [--replay FILE]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(3000)


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod = importlib.import_module('checks.' + pid.lower())
    from mc import explore
    return explore.main(pid, mod.spaces(tier), tier, seed, getattr(mod, 'LEVEL', 'model_checking'),
                        getattr(mod, 'ASSUMPTIONS', ()), replay)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
