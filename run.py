#!/usr/bin/env python3
"""python3 run.py P01 [--tier quick|thorough] [--only HARNESS] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def environment():
    env = dict(os.environ)
    env['VF_CHILD'] = '1'
    env['PYTHONPATH'] = '/opt/vp/py3/compat'
    env['LD_LIBRARY_PATH'] = '/opt/vp/py3/lib:/opt/venv/lib'
    env['TZ'] = 'UTC'
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[k] = '1'
    return env


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--setup', action='store_true')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--only')
    p.add_argument('--replay')
    a = p.parse_args()
    if not os.environ.get('VF_CHILD'):
        os.execve(PY, [PY, os.path.join(HERE, 'run.py')] + sys.argv[1:], environment())
    sys.path.insert(0, HERE)
    import warnings
    warnings.filterwarnings('ignore')
    if a.setup:
        import numpy, scipy
        from vf.z3env import z3
        print('ready', z3.get_version_string(), numpy.__version__, scipy.__version__)
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vf import core, symnp, symsparse, symdt, api, runner, translate    # noqa: loaded once, inherited by the workers
    translate.tool()
    if a.replay:
        import importlib
        import json
        importlib.import_module('checks.' + a.property.lower())
        with open(a.replay) as f:
            d = json.load(f)
        h = [h for h in api.REGISTRY if h.name == d['harness']][0]
        j = runner.run_jobs([runner.Job('replay', h, ([d['inputs']], seed), 300)], 1)[0]
        print(j.result)
        return 0
    return runner.run_property(a.property.upper(), a.tier, seed, a.only)


if __name__ == '__main__':
    sys.exit(main())
