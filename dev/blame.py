"""Seeds whose patch changes only lines that commits after the pinned one added."""
import glob, os, re, subprocess, sys
BASE = '9082dad'
for d in sorted(glob.glob('/verif/seeded/*')):
    f, lines = None, {}
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)); continue
        if f and l[:1] in ' -' and not l.startswith('---'):
            if l[0] == '-':
                lines.setdefault(f, []).append(n)
            n += 1
    old = new = 0
    for f, ns in lines.items():
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], capture_output=True, text=True).stdout.split('\n')
        for n in ns:
            h = bl[n - 1].split()[0]
            if h.startswith('^') or h.startswith(BASE):
                old += 1
            else:
                new += 1
    if not old:
        print(os.path.basename(d), 'old', old, 'new', new)
