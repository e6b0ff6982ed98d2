"""plant.py DEFS.py [ID ...]: write /verif/seeded/ID from definitions, validate in
a scratch copy (demo on both trees, stable tests), run the property's check.

DEFS.py: B = {id: dict(prop, edits=[(file, old, new)], needs, breaks, demo)}
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess as sp
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get('SEED_OUT') or os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR=$T PYTHONPYCACHEPREFIX=$T/pyc MPLCONFIGDIR=$T TMPDIR=$T MPLBACKEND=Agg
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONPATH=$PWD "$PY" -W ignore "$D/demo.py"
'''
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']


def load(f):
    s = importlib.util.spec_from_file_location('defs', f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.B


def copy(tmp):
    d = os.path.join(tmp, 'repo')
    sp.run(['cp', '-a', '/repo', d], check=True)
    return d


def tests(d, tmp):
    env = dict(os.environ, NUMBA_CACHE_DIR=tmp+'/nb', MPLBACKEND='Agg',
               PYTHONPATH=d, MPLCONFIGDIR=tmp, OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
               NUMBA_NUM_THREADS='1', PYTHONHASHSEED='0', TMPDIR=tmp,
               PYTHONPYCACHEPREFIX=tmp+'/pyc',
               PATH='/opt/venv/bin:'+os.environ['PATH'])
    x = os.path.join(tmp, 'o.xml')
    sp.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--mpl', '-p',
            'no:cacheprovider', '--timeout=600', '-n', '3', '--dist',
            'loadfile', '-o', 'junit_family=xunit2', '--junitxml='+x,
            '--deselect', 'tests/test_cli.py::test_import_time', 'tests'],
           cwd=d, env=env, stdout=sp.DEVNULL, stderr=sp.DEVNULL)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not list(c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    return [t for t in stable if t not in ok and
            'import_time' not in t and 'test_main' not in t]


def one(i, b, fast=False):
    out = [i]
    dst = os.path.join(SEED, i)
    tmp = tempfile.mkdtemp(prefix='plant.')
    try:
        d = copy(tmp)
        for f, old, new in b['edits']:
            s = open(f'{d}/{f}').read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(f'{d}/{f}', 'w').write(s.replace(old, new))
        patch = sp.run(['git', 'diff'], cwd=d, capture_output=True,
                       text=True).stdout
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(patch)
        open(dst + '/demo.sh', 'w').write(DEMO)
        os.chmod(dst + '/demo.sh', 0o755)
        open(dst + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        for nm, w in (('clean', '/repo'), ('patched', d)):
            r = sp.run(['bash', dst + '/demo.sh'], cwd=w, capture_output=True,
                       text=True)
            out.append(f'demo {nm}: {r.returncode} {(r.stdout+r.stderr)[-300:].strip()!r}')
        if not fast:
            out.append('tests broken: ' + str(tests(d, tmp)))
        env = dict(os.environ, VF_REPO=d, VERIF_SEED='1', VF_WORKERS='4')
        e = os.path.join(tmp, 'verif')
        sp.run(['cp', '-a', ROOT, e])
        r = sp.run([e + '/run', 'check', b['prop'], 'quick'], env=env,
                   capture_output=True, text=True)
        out.append(f'check {b["prop"]}: rc {r.returncode} ' + ' | '.join(
            x[:250] for x in r.stdout.splitlines() if not x.startswith('  '))[:900])
    except Exception as ex:
        out.append('ERROR ' + repr(ex))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return '\n   '.join(out)


if __name__ == '__main__':
    B = load(sys.argv[1])
    fast = '--fast' in sys.argv
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(B)
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, B[i], fast), ids):
            print(r, flush=True)
