#!/usr/bin/env python3
"""Plants bugs: seed.py make SPEC.py | seed.py try ID...

SPEC.py holds SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
make: writes seeded/<id>/ (patch against /repo's HEAD, demo, meta).
try: in a scratch copy bound over /repo (mount namespace) builds, runs the stable tests, the demo with and without, and the property's check.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
H=$(mktemp -d); trap 'rm -rf "$H"' EXIT
export HOME=$H NUMBA_CACHE_DIR=$H/numba PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py" "$H"
'''


def make(s):
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        for f, old, new in s['edits']:
            t = open(f'{w}/{f}').read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(f'{w}/{f}', 'w').write(t.replace(old, new))
        p = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(p)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def attempt(i, what=('demo', 'test', 'check')):
    src = f'{ROOT}/seeded/{i}'
    meta = json.load(open(src + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-')
    res = {}
    try:
        subprocess.run(['cp', '-a', '/repo/.', w + '/repo'], check=True)
        subprocess.run(['cp', '-a', src, w + '/demo'], check=True)
        def run(cmd, timeout=1500):
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w}/repo /repo && cd /repo && {cmd}'], capture_output=True, text=True, timeout=timeout)
            return r.returncode, (r.stdout + r.stderr)
        if 'demo' in what:
            res['clean'] = run(f'bash {w}/demo/demo.sh')
        r = subprocess.run(['git', '-C', w + '/repo', 'apply', src + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            return i, {'apply': (1, r.stderr)}
        if 'demo' in what:
            res['patched'] = run(f'bash {w}/demo/demo.sh')
        if 'test' in what:
            res['build'] = run('bash /opt/vp/build.sh')
            run(f'bash /opt/vp/test.sh {w}/o.json')
            o = json.load(open(w + '/o.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            res['tests'] = (len(stable - set(o['passed'])), str(stable - set(o['passed'])))
        if 'check' in what:
            os.mkdir(w + '/verif')
            for n in ('engine', 'checks', 'check.py', 'run.sh', 'setup.sh', 'known_findings.json', 'tools'):
                subprocess.run(['cp', '-a', f'{ROOT}/{n}', w + '/verif/'], check=True)
            res['check'] = run(f"{w}/verif/run.sh {meta['property']} quick")
    finally:
        shutil.rmtree(w)
    return i, res


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in runpy.run_path(sys.argv[2])['SEEDS']:
            if len(sys.argv) > 3 and s['id'] not in sys.argv[3:]:
                continue
            make(s)
            print('made', s['id'])
    else:
        what = ('demo', 'test', 'check') if sys.argv[1] == 'try' else tuple(sys.argv[1].split(','))
        with ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(lambda i: attempt(i, what), sys.argv[2:]):
                ok = [k for k, (rc, _) in r.items() if (rc == 0) == (k in ('clean', 'build', 'tests'))]
                bad = {k: (rc, txt[-600:]) for k, (rc, txt) in r.items() if k not in ok}
                print(i, 'OK' if not bad else 'BAD', {k: v[0] for k, v in r.items()}, bad or (r.get('check') or ('', ''))[1][:200].replace('\n', ' | '), flush=True)
