"""Development tool: mutate expressions of chosen functions, one at a time, in memory, and list the mutants a check does not notice.
usage: python3 dev/exprmut.py C15 file.py [-f regex of function names] [-t substring of str(task)] [-n sample size] [-s seed] [-T seconds per mutant]"""
import ast, sys, os, re, random, importlib, argparse, time, copy, json
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
BIN = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Div,), ast.Div: (ast.Mult,), ast.Pow: (ast.Mult,), ast.FloorDiv: (ast.Div,), ast.MatMult: ()}
CMP = {ast.Lt: (ast.LtE, ast.GtE), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.LtE), ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
SWAPS = [('K_eig_vals', 'L_eig_vals'), ('K', 'L'), ('dot', 'outer'), ('sqrt', 'square'), ('det', 'trace'), ('rand', 'randn'), ('exp', 'log'), ('min', 'max'), ('argmin', 'argmax'), ('zeros', 'ones')]
SW = {}
for x, y in SWAPS:
    SW[x], SW[y] = y, x


def doc(body):
    return body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)


def scopes(tree, rx):
    def go(node, q):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                qq = q + [n.name]
                if isinstance(n, ast.FunctionDef) and re.search(rx, '.'.join(qq)):
                    yield n, '.'.join(qq)
                else:
                    yield from go(n, qq)
    return list(go(tree, []))


def edits(node):
    """(description, function applying the edit) for one node"""
    out = []
    n = node
    if isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), ()):
            out.append(('%s' % o.__name__, lambda n, o=o: setattr(n, 'op', o())))
        if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow)) or isinstance(n.op, ast.MatMult):
            def sw(n):
                n.left, n.right = n.right, n.left
            out.append(('swap', sw))
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            out.append(('keepL', 'L'))
            out.append(('keepR', 'R'))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
        out.append(('dropunary', 'operand'))
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), ()):
            out.append((o.__name__, lambda n, o=o: n.ops.__setitem__(0, o())))
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        out.append(('const+1', lambda n: setattr(n, 'value', n.value + 1)))
        if n.value not in (0,):
            out.append(('const*2', lambda n: setattr(n, 'value', n.value * 2)))
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        out.append(('flip', lambda n: setattr(n, 'value', not n.value)))
    elif isinstance(n, ast.Attribute) and n.attr == 'T':
        out.append(('dropT', 'value'))
    elif isinstance(n, ast.Attribute) and n.attr in SW and not isinstance(n.ctx, ast.Store):
        out.append(('->' + SW[n.attr], lambda n: setattr(n, 'attr', SW[n.attr])))
    elif isinstance(n, ast.Call):
        pos = [a for a in n.args if not isinstance(a, ast.Starred)]
        if len(pos) >= 2 and len(pos) == len(n.args):
            def sw(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(('swapargs', sw))
        for i, k in enumerate(n.keywords):
            if k.arg:
                out.append(('drop ' + k.arg, lambda n, i=i: n.keywords.pop(i)))
    elif isinstance(n, ast.Slice):
        if n.lower is not None:
            out.append(('droplower', lambda n: setattr(n, 'lower', None)))
        if n.upper is not None:
            out.append(('dropupper', lambda n: setattr(n, 'upper', None)))
    elif isinstance(n, ast.AugAssign):
        for o in BIN.get(type(n.op), ()):
            out.append(('aug' + o.__name__, lambda n, o=o: setattr(n, 'op', o())))
    return out


def mutants(src, rx):
    tree = ast.parse(src)
    for fnode, q in scopes(tree, rx):
        skip = set()
        for x in ast.walk(fnode):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and doc(x.body):
                skip.update(id(y) for y in ast.walk(x.body[0]))
            if isinstance(x, ast.Raise):
                skip.update(id(y) for y in ast.walk(x))
            if isinstance(x, ast.FunctionDef):
                for d in x.args.defaults + x.args.kw_defaults:
                    if d is not None:
                        skip.update(id(y) for y in ast.walk(d))
        nodes = list(ast.walk(fnode))
        for i, n in enumerate(nodes):
            if id(n) in skip:
                continue
            for j, (d, f) in enumerate(edits(n)):
                if 'msg' in d or n.__class__.__name__ == 'Name' and n.id == 'msg':
                    continue
                yield q, i, j, '%s:%d %s [%s]' % (q, getattr(n, 'lineno', 0), d, ast.unparse(n)[:70])
        # statement deletion
        for i, n in enumerate(nodes):
            if isinstance(n, (ast.AugAssign, ast.Expr)) and id(n) not in skip and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield q, i, -1, '%s:%d delete [%s]' % (q, n.lineno, ast.unparse(n)[:70])


def apply(src, rx, q, i, j):
    tree = ast.parse(src)
    fnode = [f for f, qq in scopes(tree, rx) if qq == q][0]
    nodes = list(ast.walk(fnode))
    n = nodes[i]
    if j == -1:
        new = ast.Pass()
        for x in ast.walk(fnode):
            for _, v in ast.iter_fields(x):
                if isinstance(v, list) and n in v:
                    v[v.index(n)] = ast.copy_location(new, n)
        return ast.unparse(ast.fix_missing_locations(tree))
    d, f = edits(n)[j]
    if callable(f):
        f(n)
    else:
        rep = {'L': lambda: n.left, 'R': lambda: n.right, 'operand': lambda: n.operand, 'value': lambda: n.value}[f]()
        for x in ast.walk(fnode):
            for k, v in ast.iter_fields(x):
                if v is n:
                    setattr(x, k, rep)
                elif isinstance(v, list):
                    for a, y in enumerate(v):
                        if y is n:
                            v[a] = rep
    return ast.unparse(ast.fix_missing_locations(tree))


def one(job):
    prop, fname, rx, q, i, j, lb, sub, limit, known = job
    from sa import sweep
    m = importlib.import_module('checks.' + prop.lower())
    sources = {}
    for f in sorted(os.listdir('/repo/dppy')):
        if f.endswith('.py'):
            s = open('/repo/dppy/' + f).read()
            if f == fname:
                s = apply(s, rx, q, i, j)
            key = f[:-3]
            sources[MODKEY(f)] = (s, 'dppy/' + f)
    t0 = time.time()
    try:
        r = sweep.Runner('/repo', max_states=getattr(m, 'MAX_STATES', dict(quick=12))['quick'] if isinstance(getattr(m, 'MAX_STATES', None), dict) else 12, sources=sources)
        if hasattr(m, 'setup'):
            m.setup(r)
        nt = 0
        ts = [t for t in m.tasks('quick') if not sub or re.search(sub, str(t))]
        random.Random(1).shuffle(ts)
        for t in ts:
            res = dict(runs=0, paths=0, raises=0, obligations=0, notes=[], findings=[])
            try:
                m.judge(r, t, res)
            except RecursionError:
                pass
            nt += 1
            ks = [f for f in res['findings'] if f['key'] not in known]
            if ks:
                return lb, 'caught', ks[0]['msg'][:200]
            if time.time() - t0 > limit:
                return lb, 'missed(time %d)' % nt, ''
    except Exception as e:
        return lb, 'ERR', repr(e)[:200]
    return lb, 'missed', ''


def MODKEY(f):
    return 'dppy' if f == '__init__.py' else 'dppy.' + f[:-3]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('file')
    ap.add_argument('-f', default='.')
    ap.add_argument('-t', default='')
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-T', type=float, default=60)
    ap.add_argument('-c', action='store_true', help='show the caught ones as well')
    ap.add_argument('-p', type=int, default=8)
    a = ap.parse_args()
    src = open('/repo/dppy/' + a.file).read()
    ms = [m for m in mutants(src, a.f) if not re.search(r'print|warn|drop random_state|drop mode|params|Is \[| Is|IsNot|\bmsg\b', m[3])]
    if a.n and a.n < len(ms):
        ms = random.Random(a.s).sample(ms, a.n)
    known = set()
    for l in open(os.path.join(HERE, '..', 'known_findings.jsonl')):
        if l.startswith('{'):
            known.add(json.loads(l)['key'])
    print(len(ms), 'mutants', flush=True)
    n = 0
    with Pool(a.p, maxtasksperchild=1) as pool:
        for lb, v, msg in pool.imap_unordered(one, [(a.prop, a.file, a.f, q, i, j, lb, a.t, a.T, known) for q, i, j, lb in ms], 1):
            n += v == 'caught'
            if v != 'caught' or a.c:
                print(v, lb, msg, flush=True)
    print(n, 'caught of', len(ms))


if __name__ == '__main__':
    main()
