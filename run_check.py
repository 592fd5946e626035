#!/opt/venv/bin/python
"""run_check.py <PROPERTY> [quick|thorough] [-v] [--case NAME]... [--budget S]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--case', action='append')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    import registry
    import runner
    mods, quick, thorough = registry.PROPS[a.prop]
    budget = a.budget or (quick if a.tier == 'quick' else thorough)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = runner.run_check(a.prop, mods, a.tier, seed, budget, nworkers=a.j, only=a.case, verbose=a.v)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
