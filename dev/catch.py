"""Development tool: run the check of each planted bug's property on a patched copy.  usage: python3 dev/catch.py [-a] [seed ids/props ...]   (-a: all checks)"""
import sys, os, json, subprocess, tempfile, shutil, glob
V = '/verif'
args = sys.argv[1:]
alls = '-a' in args
args = [a for a in args if a != '-a']
claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
claimed += [x for x in ('C%02d' % i for i in range(1, 24)) if x not in claimed and os.path.exists(V + '/checks/%s.py' % x.lower())]
for d in sorted(glob.glob(V + '/seeded/*')):
    b = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    if args and b not in args and m['property'] not in args:
        continue
    t = tempfile.mkdtemp(prefix='catch')
    try:
        shutil.copytree('/repo/dppy', t + '/r/dppy')
        for f in os.listdir('/repo'):
            if os.path.isfile('/repo/' + f):
                shutil.copy('/repo/' + f, t + '/r/')
        x = subprocess.run(['patch', '-p1', '-s', '-d', t + '/r', '-i', d + '/patch.diff'], capture_output=True, text=True)
        if x.returncode:
            print(b, 'PATCH', x.stdout); continue
        for p in claimed if alls else [m['property']]:
            if p not in claimed:
                print(b, p, 'not claimed'); continue
            x = subprocess.run(['python3', V + '/check.py', p, '--repo', t + '/r', '--evidence', t + '/ev'], capture_output=True, text=True)
            if x.returncode or not alls:
                print(b, p, {0: 'MISSED', 1: 'caught'}.get(x.returncode, 'ERROR %d %s' % (x.returncode, x.stderr[-300:])), '|', (x.stdout.split('\n')[0])[:170], flush=True)
    finally:
        shutil.rmtree(t)
