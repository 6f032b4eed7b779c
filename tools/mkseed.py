#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds seeded/<id>/ from a specification (a python file
assigning id, prop, file, edits=[(old,new)...], needs, breaks, demo, and
optionally stubs=[names in standins]) and confirms it in a scratch copy: the
stable tests still pass, the demo passes before and fails after."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {'stubs': ['numpy']}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, 'seeded', ns['id'])
if os.path.isdir(d):
    shutil.rmtree(d)
os.makedirs(d)
for s in ns['stubs']:
    src = os.path.join(V, 'standins', s)
    dst = os.path.join(d, 'stubs', s)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.isdir(src):
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns('*.class'))
    else:
        shutil.copy(src, dst)
open(d + '/demo.py', 'w').write(ns['demo'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds in the demonstrated case
HERE="$(cd "$(dirname "$0")" && pwd)"
SCRATCH="$(mktemp -d)"
trap 'rm -rf "$SCRATCH"' EXIT
export JYTHONPATH="/opt/jylib:$PWD:$HERE/stubs" LC_ALL=C.UTF-8 SCRATCH
jython -B "$HERE/demo.py"
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': ns['prop'], 'needs': ns['needs'],
           'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'),
          indent=1)
w = tempfile.mkdtemp(prefix='seed')
try:
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    R = w + '/repo'
    files = ns['file'] if isinstance(ns['file'], list) else [ns['file']]
    for old, new in ns['edits']:
        n = 0
        for f in files:
            p = R + '/openquake/commonlib/' + f
            t = open(p, encoding='utf8').read()
            if old in t:
                assert t.count(old) == 1, ('ambiguous', old)
                open(p, 'w', encoding='utf8').write(t.replace(old, new))
                n += 1
        assert n == 1, ('not found', old)
    diff = subprocess.check_output(['git', '-C', R, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    # original lines?
    for l in diff.decode().splitlines():
        if l.startswith('-') and not l.startswith('---'):
            for f in files:
                base = subprocess.check_output(
                    ['git', '-C', R, 'show',
                     '0d05f5c:openquake/commonlib/' + f]).decode()
                if l[1:] in base.splitlines():
                    break
            else:
                print('WARNING: not an original line:', l)
    rc = subprocess.call(['bash', d + '/demo.sh'], cwd='/repo')
    print('demo on unchanged:', rc)
    rc2 = subprocess.call(['bash', d + '/demo.sh'], cwd=R)
    print('demo on patched:', rc2)
    env = dict(os.environ, JYTHONPATH='/opt/jylib:' + R, LC_ALL='C.UTF-8')
    test = subprocess.run(
        ['jython', '-B', '/opt/vp/run_nose.py', '-v', '--with-doctest'],
        cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = test.stdout.decode()
    print([l for l in out.splitlines() if l.startswith(('Ran', 'FAILED'))])
    nok = sum(l.rstrip().endswith('... ok') for l in out.splitlines())
    print('ok tests', nok)
    if rc == 0 and rc2 != 0 and nok >= 12:
        print('SEED OK', ns['id'])
    else:
        print('SEED BAD', ns['id'])
finally:
    shutil.rmtree(w)
