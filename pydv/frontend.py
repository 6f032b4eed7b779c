"""Dump the ASTs of the current tree with the interpreter that runs it."""
import json
import os
import subprocess
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/usr/share/java/jython-2.7.3.jar'
PKGDIR = os.path.join(REPO, 'openquake', 'commonlib')


def find_jar():
    for d in ('/usr/share/java', '/opt'):
        for root, dirs, files in os.walk(d):
            for f in files:
                if f.startswith('jython') and f.endswith('.jar') and \
                        '2.7' in f:
                    return os.path.join(root, f)
            if d == '/opt' and root.count('/') > 4:
                del dirs[:]
    return JAR


def dump():
    jar = JAR if os.path.exists(JAR) else find_jar()
    with tempfile.TemporaryDirectory() as tmp:
        ab = os.path.join(tmp, '_abcoll.py')
        with zipfile.ZipFile(jar) as z, open(ab, 'wb') as f:
            f.write(z.read('Lib/_abcoll.py'))
        pairs = ['_abcoll=' + ab]
        for fn in sorted(os.listdir(PKGDIR)):
            if fn.endswith('.py') and fn != '__init__.py':
                pairs.append('openquake.commonlib.%s=%s' % (
                    fn[:-3], os.path.join(PKGDIR, fn)))
        out = os.path.join(tmp, 'out.json')
        subprocess.run(['jython', '-B', os.path.join(HERE, 'dump_ast.py'),
                        out] + pairs, check=True, timeout=200,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        with open(out) as f:
            return json.load(f)
