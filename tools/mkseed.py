"""Build and confirm planted bugs:  mkseed.py SPEC.py [ID ...]

SPEC.py defines SEEDS: a list of dicts with id, property, edits [(file, old,
new)], needs, breaks and demo (python source run in /repo).  For each one the
patch is made in a scratch copy; the demonstration must pass without and fail
with it, and the stable tests must pass with it.  Kept ones go to
/verif/seeded/<id>/; whether the property's check reports it is printed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

DEMO = '''#!/bin/bash
d=$(mktemp -d)
export HOME=$d TZ=UTC PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$PWD TMPDIR=$d
mkdir -p "$d/pysatData"
/opt/venv/bin/python -c "import pysat; pysat.params['data_dirs']='$d/pysatData'" >/dev/null 2>&1
/opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
rc=$?
rm -rf "$d"
exit $rc
'''


def sh(cmd, cwd=None, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def stable(copy):
    x = os.path.join(copy, 'junit.xml')
    home = tempfile.mkdtemp()
    os.makedirs(home + '/pysatData')
    env = dict(HOME=home, PYTHONHASHSEED='0', TZ='UTC', OMP_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', http_proxy='http://127.0.0.1:9',
               https_proxy='http://127.0.0.1:9')
    sh("/opt/venv/bin/python -c \"import pysat; "
       "pysat.params['data_dirs']='%s/pysatData'\"" % home, copy, **env)
    sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
       '-o junit_family=xunit2 --junitxml=%s ocbpy/tests' % x, copy, **env)
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not list(c.iter('failure')) and not list(c.iter('error')) and \
                not list(c.iter('skipped')):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    os.remove(x)
    shutil.rmtree(home)
    return [w for w in want if w not in ok]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for s in ns['SEEDS']:
        if ids and s['id'] not in ids:
            continue
        tmp = tempfile.mkdtemp(prefix='seed-')
        copy = tmp + '/repo'
        sh('cp -a /repo %s' % copy)
        d = '/verif/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        base = sh('bash %s/demo.sh' % d, copy)
        for f, old, new in s['edits']:
            p = os.path.join(copy, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', copy).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        mut = sh('bash %s/demo.sh' % d, copy)
        bad = stable(copy) if base.returncode == 0 and mut.returncode else \
            ['not run']
        good = base.returncode == 0 and mut.returncode != 0 and not bad
        print('%s: demo base %d patched %d, stable tests failing: %s' % (
            s['id'], base.returncode, mut.returncode, bad[:4]), flush=True)
        if not good:
            print(base.stdout[-600:] if base.returncode else
                  mut.stdout[-300:])
            shutil.rmtree(d)
        else:
            if os.path.exists('/verif/checks/%s.py' % s['property'].lower()):
                r = sh('/verif/run.py %s' % s['property'], '/verif',
                       VERIF_REPO=copy)
                print('   check %s: exit %d  %s' % (
                    s['property'], r.returncode,
                    '' if r.returncode == 1 else r.stdout[-500:]), flush=True)
        shutil.rmtree(tmp)


main()
