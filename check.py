"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--replay FILE]"""
import argparse
import atexit
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYG2P_REPO', '/repo')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    home = tempfile.mkdtemp(prefix='verif-home-')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(home, ignore_errors=True))
    os.environ.update(HOME=home, NUMBA_CACHE_DIR=os.path.join(home, 'numba'), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                      NUMEXPR_MAX_THREADS='1', NUMEXPR_NUM_THREADS='1', PYTHONHASHSEED='0')
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.path.append(Z3)
    os.chdir(home)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    import pyg2p
    assert os.path.abspath(pyg2p.__file__).startswith(os.path.join(REPO, 'src')), pyg2p.__file__
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(pyg2p.__path__, 'pyg2p.'):
        importlib.import_module(m.name)
    logging.getLogger().setLevel(logging.CRITICAL + 10)
    logging.disable(logging.CRITICAL)
    return home


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    setup()
    from engine import runner
    if a.replay:
        import json
        r = json.load(open(a.replay))
        mod = runner.load_check(a.property)
        h = next(x for x in mod.HARNESSES if x.name == r['harness'])
        fails, t = runner.run_concrete(h, r['params'], runner.unjson(r['inputs']))
        print(fails)
        sys.exit(1 if fails else 0)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.exit(runner.main(a.property, a.tier, seed, a.only, a.v))


if __name__ == '__main__':
    main()
