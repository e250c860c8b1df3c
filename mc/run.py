"""python -m mc.run C01 [quick|thorough] | replay FILE"""
import importlib
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.dont_write_bytecode = True

from mc import core


def main(argv):
    core.setup_paths()
    if argv[0] == 'replay':
        return core.replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2].split(',') if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    module = importlib.import_module('mc.checks.' + prop.lower())
    return core.run_check(prop, module.components(tier), tier, seed,
                          module.ASSUMPTIONS, only=only)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
