#!/usr/bin/env python3
"""plant.py FILE.py : keeps a planted bug after confirming it.

FILE.py defines ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO (python text).
A scratch copy of /repo gets the edits; the repository's tests must still pass, the
demonstration must succeed on /repo and fail on the copy.  Then the check of PROP is
run against the copy (VP_REPO) and its verdict printed.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
check = '--nocheck' not in sys.argv
d = os.path.join(HERE, 'seeded', ns['ID'])
w = tempfile.mkdtemp(prefix='plant_')
env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/tmp/mplc')
try:
    subprocess.check_call(['cp', '-a', '/repo', w + '/r'])
    r = w + '/r'
    for path, old, new in ns['EDITS']:
        s = open(os.path.join(r, path)).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(os.path.join(r, path), 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
    assert diff
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository.  Ends with 0 if the property holds for this case.
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
export MPLCONFIGDIR="$W/mpl"
cd "$W"
timeout 200 /opt/venv/bin/python "$D/demo.py"
rc=$?
rm -rf "$W"
exit $rc
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=r,
                       env=dict(env, PYTHONPATH=r), capture_output=True, text=True)
    print('tests:', t.stdout.strip().splitlines()[-1])
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    print('demo unchanged:', a.returncode, a.stderr[-300:], ' patched:', b.returncode, (b.stderr + b.stdout)[-200:])
    assert t.returncode == 0 and a.returncode == 0 and b.returncode != 0
    if check:
        for p in [ns['PROP']] + ns.get('ALSO', []):
            c = subprocess.run([sys.executable, HERE + '/check.py', p], env=dict(os.environ, VP_REPO=r), capture_output=True, text=True)
            print(p, 'check:', c.returncode, c.stdout[:600], c.stderr[-1500:])
finally:
    shutil.rmtree(w)
