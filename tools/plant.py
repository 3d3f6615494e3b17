"""plant.py SPEC.py : make and confirm a planted bug (development aid; no check uses it).

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python text run on the built tree, exit 0 / 1)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
skip_tests = '--no-tests' in sys.argv
out = os.path.join(HERE, 'seeded', spec['ID'])
os.makedirs(out, exist_ok=True)
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=/opt/vp/py3/compat:/opt/eustace-py3/src LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" && /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, quiet=True):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not quiet:
        print(r.stdout[-1500:])
    return r


assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo not clean'
with open(os.path.join(out, 'demo.py'), 'w') as f:
    f.write(spec['DEMO'])
with open(os.path.join(out, 'demo.sh'), 'w') as f:
    f.write(DEMO_SH)
os.chmod(os.path.join(out, 'demo.sh'), 0o755)
with open(os.path.join(out, 'meta.json'), 'w') as f:
    json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, f, indent=1)
BUILD = "bash -c '. /opt/vp/py3/common.sh; translate && extensions'"
try:
    for path, old, new in spec['EDITS']:
        p = os.path.join('/repo', path)
        with open(p, newline='') as f:
            s = f.read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (path, s.count(old), old)
        with open(p, 'w', newline='') as f:
            f.write(s.replace(old, new))
    with open(os.path.join(out, 'patch.diff'), 'w', newline='') as f:
        f.write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout.decode())
    ok = True
    if skip_tests:
        print('build', sh(BUILD).returncode)
    else:
        r = sh('bash /opt/vp/test.sh /tmp/plant_tests.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open('/tmp/plant_tests.json'))
        key = [k for k in ('stable', 'passed', 'pass') if k in base][0] if isinstance(base, dict) else None
        want = set(base[key] if key else base)
        passed = set(got[[k for k in ('passed', 'pass') if k in got][0]])
        lost = sorted(want - passed)
        print('tests lost:', lost[:5], len(lost))
        ok = ok and not lost
    r = sh('cd /repo && bash %s/demo.sh' % out)
    print('demo with patch: rc', r.returncode, r.stdout.strip().splitlines()[-1:])
    ok = ok and r.returncode != 0
    r = sh('cd %s && python3 run.py %s --tier quick' % (HERE, spec['PROPERTY']))
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'INCONCL' in l or 'harness' in l or 'VIOLATED' in l]
    print('check: rc', r.returncode, *lines[:8], sep='\n   ')
finally:
    sh('git -C /repo checkout -- .')
    sh(BUILD)
r = sh('cd /repo && bash %s/demo.sh' % out)
print('demo without patch: rc', r.returncode, r.stdout.strip().splitlines()[-3:])
ok = ok and r.returncode == 0
print('PLANTED' if ok else 'NOT CONFIRMED', spec['ID'])
