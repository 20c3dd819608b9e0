#!/usr/bin/env python3
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
ENV = dict(HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
           PYTHONNOUSERSITE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', PYTHONHASHSEED='0')


def bootstrap():
    if os.environ.get('VERIF_BOOT') != '1':
        env = dict(os.environ, VERIF_BOOT='1', **ENV)
        env.pop('PYTHONPATH', None)
        env.pop('LD_PRELOAD', None)
        os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:],
                  env)


if __name__ == '__main__':
    bootstrap()
    REPO = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.path.insert(0, HERE)
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--start', type=int, default=0)
    a = ap.parse_args()
    from vlib import core
    import seismic.correlate.correlate as _c
    if not os.path.abspath(_c.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        print('seismic is not imported from', REPO, _c.__file__)
        sys.exit(3)
    sys.exit(core.main(a.pid, a.tier, a.seed, a.replay, a.serial, a.only,
                       a.cases, a.start))
