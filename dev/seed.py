"""Development tool: build and confirm planted bugs.  usage: python3 dev/seed.py [id ...]
definitions are in dev/seeds/<id>.py: BUG = dict(property=, file=, edits=[(old, new)], needs=, breaks=), DEMO = source of the demonstration.
For each: write /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}, check that the demo passes on the clean tree and fails on
the patched copy, and that the stable tests pass on the patched copy (skipped with -n)."""
import sys, os, json, shutil, subprocess, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', MPLCONFIGDIR='/tmp/mplc')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
SH = '''#!/bin/bash
# exit 0 when the property holds for this input, nonzero when it is broken (run in the directory that contains dppy/)
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD" exec timeout 280 "$PY" -W ignore "$D/demo.py"
'''


def one(bid, tests=True):
    sp = importlib.util.spec_from_file_location('s', HERE + '/seeds/%s.py' % bid)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    B = m.BUG
    out = '/verif/seeded/%s' % bid
    d = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        for file, old, new in [(B['file'], o, n) for o, n in B['edits']] if 'file' in B else B['edits']:
            f = d + '/r/dppy/' + file
            s = open(f).read()
            if s.count(old) != 1:
                return bid, 'EDIT: %d matches of %r' % (s.count(old), old[:70])
            open(f, 'w').write(s.replace(old, new))
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', '-C', d + '/r', 'diff'], capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(SH)
        open(out + '/demo.py', 'w').write(m.DEMO.lstrip())
        json.dump(dict(property=B['property'], needs=B['needs'], what_it_breaks=B['breaks']), open(out + '/meta.json', 'w'), indent=1)
        # the changed lines must not be lines of my own commits
        a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True)
        b = subprocess.run(['bash', out + '/demo.sh'], cwd=d + '/r', env=ENV, capture_output=True, text=True)
        msg = 'clean %d, patched %d' % (a.returncode, b.returncode)
        if a.returncode:
            msg += ' CLEAN FAILS: ' + (a.stdout + a.stderr)[-400:]
        if not b.returncode:
            msg += ' PATCH NOT SHOWN'
        elif 'Error' in b.stderr and 'AssertionError' not in b.stderr:
            msg += ' [patched: %s]' % b.stderr.strip().split('\n')[-1][:150]
        if tests:
            x = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'vp_seed', '-p', 'no:cacheprovider', '--timeout=300', '--tb=short', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=%s/j.xml' % d, 'tests'],
                               cwd=d + '/r', env=dict(ENV, PYTHONPATH='/opt/vp/plugins:' + d + '/r'), capture_output=True, text=True)
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:%s/j.xml' % d], capture_output=True)
            try:
                o = json.load(open(d + '/o.json'))
                passed = set(o.get('passed', o.get('pass', [])))
                lost = [t for t in STABLE if t not in passed]
                msg += '; stable lost: %s' % lost if lost else '; stable tests pass'
            except Exception as e:
                msg += '; no test results (%s) %s' % (e, x.stdout[-200:])
        return bid, msg
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if x != '-n']
    ids = a or sorted(f[:-3] for f in os.listdir(HERE + '/seeds') if f.endswith('.py'))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda i: one(i, '-n' not in sys.argv), ids):
            print('%s: %s' % r, flush=True)
