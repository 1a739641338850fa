"""plant.py SPEC.py... -- plants bugs: verifies and writes seeded/<ID>/

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO
(python source; exit 0 when the behaviour is right) and TESTS (names of test
modules to run, 'all' for everything)."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd at the repository root
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, t=900, **env):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=t,
                       env=dict(os.environ, **env))
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def stable(f):
    parts = f.split('::')
    mod = parts[0][:-3].replace('/', '.')
    return '.'.join([mod] + parts[1:-1]) + '::' + parts[-1] in BASE


def plant(path):
    spec = {}
    exec(compile(open(path).read(), path, 'exec'), spec)
    d = tempfile.mkdtemp(prefix='plant-')
    repo = d + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        sh('git checkout -q -- .', repo)
        out = os.path.join(V, 'seeded', spec['ID'])
        tmp = d + '/demo'
        os.makedirs(tmp)
        with open(tmp + '/demo.py', 'w') as f:
            f.write(spec['DEMO'].lstrip('\n'))
        with open(tmp + '/demo.sh', 'w') as f:
            f.write(SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        rc, o = sh('bash %s/demo.sh' % tmp, repo)
        if rc:
            print(spec['ID'], 'DEMO FAILS UNCHANGED', o[-600:])
            return
        for p, old, new in spec['EDITS']:
            fn = os.path.join(repo, p)
            s = open(fn, encoding='utf-8', newline='').read()
            if s.count(old) != 1:
                print(spec['ID'], 'EDIT MATCHES %d TIMES' % s.count(old), old)
                return
            open(fn, 'w', encoding='utf-8', newline='').write(
                s.replace(old, new))
        rc, diff = sh('git diff', repo)
        # lines changed must be of the original repository
        rc, o = sh('bash %s/demo.sh' % tmp, repo)
        if rc == 0:
            print(spec['ID'], 'DEMO PASSES WITH THE BUG')
            return
        demo = o.strip().splitlines()[-1:] or ['']
        tests = spec.get('TESTS', 'all')
        files = 'unittests' if tests == 'all' else ' '.join(
            'unittests/test_%s.py' % t for t in tests)
        rc, o = sh('/opt/venv/bin/python -m pytest -q -p pyslet_plugin -p '
                   'no:cacheprovider -rf --continue-on-collection-errors '
                   '--ignore=unittests/test_mysqldbds.py --timeout=120 '
                   '--deselect=unittests/test_http_client.py::SecureTests ' + files, repo, TZ='UTC',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp')
        failed = [l.split()[1] for l in o.splitlines()
                  if l.startswith(('FAILED', 'ERROR'))]
        bad = [f for f in failed if stable(f)]
        if bad:
            # some use fixed ports: again, without company
            with open('/tmp/plant.lock', 'w') as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                rc, o2 = sh('/opt/venv/bin/python -m pytest -q -p '
                            'pyslet_plugin -p no:cacheprovider -rf '
                            '--timeout=120 ' + ' '.join(bad), repo, TZ='UTC',
                            PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp')
            bad = [l.split()[1] for l in o2.splitlines()
                   if l.startswith(('FAILED', 'ERROR'))]
        if bad:
            print(spec['ID'], 'TESTS FAIL', bad[:5])
            return
        if 'passed' not in o:
            print(spec['ID'], 'TESTS?', o[-300:])
            return
        os.makedirs(out, exist_ok=True)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(tmp + '/' + f, out)
        with open(out + '/patch.diff', 'w') as f:
            f.write(diff)
        with open(out + '/meta.json', 'w') as f:
            json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'],
                           what_it_breaks=spec['BREAKS']), f, indent=1)
        rc, o = sh('./run %s --seed 1' % spec['PROPERTY'], V,
                   VERIF_REPO=repo)
        print(spec['ID'], 'planted (other failures: %d); check rc=%d %s' % (
            len(failed), rc, [l.strip()[:160] for l in o.splitlines()
                              if l.startswith('  [')][:2]), '| demo:',
              demo[0][:100], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


for p in sys.argv[1:]:
    plant(p)
