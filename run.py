#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'agg')
import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.WARNING)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('MARXS_REPO', '/repo'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    from mc import core
    try:
        mod = importlib.import_module('checks.' + a.prop)
    except ImportError as e:
        import traceback
        tb = traceback.format_exc()
        if 'checks.' + a.prop in str(e):
            raise

        class Broken:
            __doc__ = 'import of the code under test'

            @staticmethod
            def scenarios(ctx):
                raise ImportError(tb)
        mod = Broken
    sys.exit(core.run_property(a.prop, mod, a.tier, seed, a.replay))


if __name__ == '__main__':
    main()
