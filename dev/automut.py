"""Development tool: mutate the guards of the package (if statements around a raise, validator conditions) one operator at a time
and list the mutants a check does not notice.  usage: python3 dev/automut.py C18 [file substring] [-k kind] ; kinds: guard (default), cmp, all"""
import ast, sys, os, copy, shutil, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
FLIP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def raises(body):
    return any(isinstance(x, ast.Raise) for b in body for x in ast.walk(b))


def guards(tree, kind):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and (kind == 'all' or raises(n.body) or raises(n.orelse)):
            yield n
        if kind == 'all' and isinstance(n, (ast.While, ast.IfExp)):
            yield n


def mutants(src, kind):
    tree = ast.parse(src)
    idx = [i for i, n in enumerate(ast.walk(tree))]
    nodes = list(ast.walk(tree))
    gs = list(guards(tree, kind))
    for g in gs:
        gi = nodes.index(g)
        conds = [(i, m) for i, m in enumerate(ast.walk(g.test))]
        for i, m in conds:
            if isinstance(m, ast.Compare):
                for j, o in enumerate(m.ops):
                    if type(o) in FLIP:
                        yield gi, i, ('op', j), '%d: %s' % (g.lineno, ast.unparse(m))
            if isinstance(m, ast.BoolOp):
                yield gi, i, ('bool',), '%d: %s' % (g.lineno, ast.unparse(m))
                for j in range(len(m.values)):
                    yield gi, i, ('drop', j), '%d: drop %s of %s' % (g.lineno, ast.unparse(m.values[j]), ast.unparse(m))
            if isinstance(m, ast.Constant) and isinstance(m.value, (int, float)) and not isinstance(m.value, bool):
                yield gi, i, ('const',), '%d: const %s in %s' % (g.lineno, m.value, ast.unparse(g.test))
        for v in (False, True):
            yield gi, None, ('set', v), '%d: %s := %s' % (g.lineno, ast.unparse(g.test), v)


def apply(src, gi, i, mu):
    tree = ast.parse(src)
    g = list(ast.walk(tree))[gi]
    if mu[0] == 'set':
        g.test = ast.Constant(mu[1])
    else:
        m = list(ast.walk(g.test))[i]
        if mu[0] == 'op':
            m.ops[mu[1]] = FLIP[type(m.ops[mu[1]])]()
        elif mu[0] == 'bool':
            m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
        elif mu[0] == 'drop':
            del m.values[mu[1]]
        else:
            m.value = m.value + 1
    return ast.unparse(ast.fix_missing_locations(tree))


def one(job):
    prop, f, gi, i, mu, lb = job
    d = tempfile.mkdtemp(prefix='amut')
    try:
        shutil.copytree('/repo/dppy', d + '/dppy')
        p = d + '/dppy/' + os.path.basename(f)
        open(p, 'w').write(apply(open(f).read(), gi, i, mu))
        r = subprocess.run(['python3', HERE + '/../check.py', prop, '--repo', d, '--procs', '1', '--evidence', d], capture_output=True, text=True)
        return f, lb, mu, r.returncode, r.stdout.split('\n')[0][:140]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    kind = 'guard'
    if '-k' in a:
        kind = a[a.index('-k') + 1]
        del a[a.index('-k'):a.index('-k') + 2]
    prop = a[0]
    sub = a[1] if len(a) > 1 else ''
    jobs = []
    for f in sorted(glob.glob('/repo/dppy/*.py')):
        if sub in f:
            jobs += [(prop, f, *m) for m in mutants(open(f).read(), kind)]
    print(len(jobs), 'mutants')
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for f, lb, mu, rc, o in ex.map(one, jobs):
            if rc == 1:
                n += 1
            else:
                print(os.path.basename(f), lb, mu, {0: 'missed'}.get(rc, 'ERROR %s' % rc), flush=True)
    print(n, 'caught')
