"""Development tool: apply small source edits to a scratch copy of /repo and report which check notices.
usage: python3 dev/mutate.py [substring of mutant id or property] ; mutants are in dev/mutants.py (not read by any check)"""
import sys, os, shutil, subprocess, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))


def one(m):
    mid, prop, file, edits, only = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/dppy', d + '/dppy')
        f = d + '/dppy/' + file
        s = open(f).read()
        for old, new in edits:
            if old not in s:
                return mid, prop, 'EDIT DOES NOT APPLY: ' + old[:60], ''
            s = s.replace(old, new, 1)
        open(f, 'w').write(s)
        try:
            compile(s, f, 'exec')
        except SyntaxError as e:
            return mid, prop, 'SYNTAX %s' % e, ''
        cmd = ['python3', HERE + '/../check.py', prop, '--repo', d, '--procs', '2', '--evidence', d]
        if only:
            cmd += ['--only', only]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return mid, prop, {0: 'missed', 1: 'caught'}.get(r.returncode, 'ERROR %d %s' % (r.returncode, r.stderr[-300:])), r.stdout.split('\n')[0][:200]
    finally:
        shutil.rmtree(d)


def main():
    sp = importlib.util.spec_from_file_location('mutants', HERE + '/mutants.py')
    mm = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mm)
    sel = [m for m in mm.MUTANTS if len(sys.argv) < 2 or any(a in m[0] or a == m[1] for a in sys.argv[1:])]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, sel):
            print('%-28s %s %-8s %s' % r, flush=True)


if __name__ == '__main__':
    main()
