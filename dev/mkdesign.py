"""Write DESIGN.md from dev/design, the docstrings of the checks, known_findings.jsonl and dev/seeds."""
import ast, glob, json, os, subprocess, textwrap
V = '/verif/'
titles = {}
for l in open(V + 'properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
bounds = json.load(open(V + 'dev/design/bounds.json'))
out = [open(V + 'dev/design/head.md').read()]
w = lambda s, **k: textwrap.fill(s, 150, break_long_words=False, break_on_hyphens=False, **k)
for f in sorted(glob.glob(V + 'checks/c[0-9]*.py')):
    i = os.path.basename(f)[:3].upper()
    doc = ' '.join(ast.get_docstring(ast.parse(open(f).read())).split())
    out.append(w('**%s %s.** %s %s' % (i, titles[i], doc, bounds.get(i, ''))) + '\n\n')
fixed = [l[len('fixed: property='):].strip().split(' ', 2) for l in open(V + 'known_findings.jsonl') if l.startswith('fixed:')]
fixed = '\n'.join(w('* %s (%s): %s' % (a, b, c), subsequent_indent='  ') for a, b, c in fixed)
seeds = subprocess.run(['python3', V + 'dev/seedtable.py'], capture_output=True, text=True).stdout.strip()
out.append(open(V + 'dev/design/tail.md').read().replace('@FIXED@', fixed).replace('@SEEDS@', seeds))
open(V + 'DESIGN.md', 'w').write(''.join(out))
