"""Progress of loops.  (1) The random walks of the spanning tree samplers are enumerated as finite chains on given graphs (see C26): from every state that can be reached, an exit must be
reachable, so that the walk ends with probability one.  (2) The other while loops are followed for two iterations with all decisions enumerated.  A path from the head of the loop back to the
head that leaves all variables and objects as they were, and that takes no decision on a variate drawn in the loop, repeats forever: it may not exist.  Variables that the loop changes without
random variates are then treated as unknowns: the paths of the second iteration give the map from one state to the next, which is iterated at points of the parameter space (an arithmetic
evaluation of the extracted terms); it may not arrive at a fixed point or cycle at which the loop goes on.  (3) A lint over the syntax trees of all modules: a while loop without break,
return or raise must assign, mutate or pass on one of the names that its condition reads, and an unbounded
loop that draws proposals, in a function that has a bound on their number, must have an exit that depends on the bound and on something the loop changes."""
import ast
import os
from sa import law, progress, walks, chains
from sa.chains import report, gauss
from sa.formula import fn, obj
from sa.law import Undecided
from sa.pit import Arr, NotEval
from sa.sweep import finding
from checks import c26

TITLE = 'progress of loops'
LEVEL = 'other'
RULE = 'no reachable state of a walk from which no exit can be reached; no path through a loop that repeats the same computation; no loop whose condition cannot change'
MAX_STATES = dict(quick=80, thorough=80)
B, MC = 'bless.', 'mcmc_sampling.'
BL = dict(X_data='arr:3,2', eval_L='fn', rls_oversample_param='float', nb_iter_bless='c:3', random_state='rng', verbose='c:False')
Z = dict(A_zono='arr:2,3', T_max='none', random_state='rng', nb_iter='c:1')
LOOPCASES = {
    'bless': fn(B + 'bless', lam_final='float', **BL),
    'bless-size': fn(B + 'bless_size', size_final='float', **BL),
    'zonotope': fn(MC + 'zonotope_sampler', **Z),
    'zonotope-x0': fn(MC + 'zonotope_sampler', x_0='arr:2', lin_obj='arr:3', **Z),
    'zonotope-object': obj('finite_dpps.FiniteDPP', dict(kernel_type="c:'correlation'", projection='c:True', A_zono='arr:2,3'),
                           ('sample_mcmc', dict(mode="c:'zonotope'", nb_iter='c:1', T_max='none', random_state='rng'))),
}
POINTS = [dict(lam_final=l, rls_oversample_param=q, size_final=s, diag=d)
          for l in (2.0, 0.3, 1e-3) for q, s, d in ((0.7, 3.5, (1.0, 1.0, 1.0)), (2.0, 2.2, (0.4, 1.3, 2.1)), (6.0, 5.0, (0.02, 0.3, 0.05)), (25.0, 8.0, (3.0, 7.0, 11.0)))]


def tasks(tier):
    for k in c26.WALKCASES:
        yield ('walk', k)
    for k in LOOPCASES:
        yield ('loop', k)


def judge(r, task, res):
    kind, key = task
    res['runs'] += 1
    try:
        (walk if kind == 'walk' else loop)(r, key, res)
    except (Undecided, NotEval) as e:
        res['notes'].append('%s: %s' % (key, e))


def walk(r, key, res):
    t, nb = c26.WALKCASES[key]
    w = walks.Walk(r, t, lambda w, st, v, edges: 'end')
    res['paths'] += len(w.nodes)
    res['obligations'] += len(w.nodes)
    s = [a for a in w.stuck() if a]
    if s:
        res['findings'].append(report(r, 'stuck', t, 'walk', 'on the graph %s the walk can reach a state from which it never ends (%d of %d states)' % (c26.edges_of(nb), len(s), len(w.nodes))))


def hook(diag):
    def h(ev, t):
        if t.op == 'call' and t.args[0] == 'meth:diag':
            return Arr((len(diag),), list(diag))
        return NotImplemented
    return h


def loop(r, key, res):
    t = LOOPCASES[key]
    P = progress.Progress(r, t)
    if P.note and not P.loops:
        res['notes'].append('%s: %s' % (key, P.note))
    for L in P.loops.values():
        res['paths'] += len(L.starts) + len(L.maps) + L.seen
        res['obligations'] += L.seen
        if L.lasso:
            res['findings'].append(at(L, 'same', t, 'the iteration leaves everything as it was and takes no decision on a new random variate: it is repeated forever'))
            continue
        for vals in POINTS:
            def point(syms):
                v = {k: x for k, x in vals.items() if k != 'diag'}
                pt = chains.point(v, hook(vals['diag']))
                pt.env.update(syms)
                return pt
            x = progress.iterate(L, point)
            res['obligations'] += 1
            if x is not None:
                cur, it = x
                res['findings'].append(at(L, 'fixpoint', t, 'after %d iterations the loop repeats the same state (%s) and goes on forever, for example at %s' % (
                    it, ', '.join('%s=%s' % (a, brief(y)) for a, y in sorted(cur.items())), ', '.join('%s=%s' % (a, brief(y)) for a, y in sorted(vals.items())))))
                break


def brief(x):
    x = list(x.data) if isinstance(x, Arr) else x
    return '[%s]' % ', '.join('%.4g' % y for y in x) if isinstance(x, (list, tuple)) else '%.4g' % x


def at(L, rule, t, msg):
    return finding(rule, L.where, L.fn, 'loop', '%s: %s' % (chains.label(t), msg), chains.label(t))


# ---------------------------------------------------------------- lint
PURE = {'len', 'abs', 'min', 'max', 'sum', 'any', 'all', 'bool', 'int', 'float', 'isinstance', 'not'}


def constant_loop(n):
    """the names read by the condition if nothing in the loop can change it"""
    names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)} - PURE
    for x in ast.walk(n.test):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in PURE):
            return None
        if isinstance(x, (ast.Attribute, ast.NamedExpr, ast.Await, ast.Yield)):
            return None
    if not names and not (isinstance(n.test, ast.Constant) and n.test.value):
        return None
    for s in n.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Assert, ast.Try)):
                return None
            if isinstance(x, ast.Name) and x.id in names:
                if not isinstance(x.ctx, ast.Load) or not harmless(x, s):
                    return None
    return sorted(names) or ['True']


def harmless(x, stmt):
    """a name that is only read: an operand, a subscript that is read, or the argument of a pure function"""
    for y in ast.walk(stmt):
        for c in ast.iter_child_nodes(y):
            if c is x:
                if isinstance(y, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.BoolOp)):
                    return True
                if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load):
                    return True
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in PURE:
                    return True
                return False
    return False


# ---------------------------------------------------------------- bounds on proposals
BOUNDS = {'max_iter', 'nb_iter_max', 'nb_trials_max', 'max_iter_size_rejection'}


def names_of(x):
    return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} | {y.value for y in ast.walk(x) if isinstance(y, ast.Constant) and y.value in BOUNDS}


def flow(fnode, seeds):
    """names that depend on the seeds by assignments of the function"""
    out, n = set(seeds), -1
    while n != len(out):
        n = len(out)
        for x in ast.walk(fnode):
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None and names_of(x.value) & out:
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    out |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            elif isinstance(x, (ast.For, ast.comprehension)) and names_of(x.iter) & out:
                out |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    return out


def draws_in(n):
    return any(isinstance(c, ast.Call) and (any(isinstance(y, ast.Name) and y.id in ('rng', 'random_state') for y in ast.walk(c))) for s in n.body for c in ast.walk(s))


def endless(n):
    if isinstance(n, ast.While):
        return True
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
        f = ast.unparse(n.iter.func).split('.')[-1]
        return f in ('count', 'cycle') or f == 'repeat' and len(n.iter.args) + len(n.iter.keywords) == 1 or f == 'iter' and len(n.iter.args) == 2
    return False


def exits(body):
    """does the block leave the loop by itself?"""
    for s in body:
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return True
        if isinstance(s, (ast.If, ast.With, ast.Try)) and any(exits(getattr(s, b, [])) for b in ('body', 'orelse', 'finalbody')):
            return True
    return False


def unbounded(fnode, n):
    """a loop over proposals, in a function with a bound on their number, none of whose exits depends on that bound"""
    a = fnode.args
    bounds = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} & BOUNDS
    for x in ast.walk(fnode):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and (x.targets[0].id in BOUNDS or names_of(x.value) & BOUNDS):
            bounds.add(x.targets[0].id)
    if not bounds or not endless(n) or not draws_in(n):
        return None
    dep = flow(fnode, bounds) | BOUNDS
    changed = {y.id for s in n.body for y in ast.walk(s) if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load)}
    for st in n.body:       # attributes and items stored, objects whose methods are called
        for x in ast.walk(st):
            y = x.func if isinstance(x, ast.Call) else x if isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)) else None
            while isinstance(y, (ast.Attribute, ast.Subscript)):
                y = y.value
                if isinstance(y, ast.Name):
                    changed.add(y.id)
    if isinstance(n, ast.For):
        changed |= {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)}
    tests = [n.test] if isinstance(n, ast.While) else []
    for s in n.body:
        for x in ast.walk(s):
            if isinstance(x, ast.If) and (exits(x.body) or exits(x.orelse)):
                tests.append(x.test)
            if isinstance(x, (ast.Assert,)):
                tests.append(x.test)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'next':
                return None
            if isinstance(x, ast.Try):
                return None
    for t in tests:
        v = names_of(t)
        if v & dep and v & changed:
            break
    else:
        return sorted(bounds)[0]
    if isinstance(n, ast.While):
        count = counters(n) & set().union(*[names_of(t) for t in tests])
        if count and not counted(n.body, count):
            return sorted(bounds)[0]
    return None


def counters(n):
    """variables that are updated from their own value, lists that grow or shrink"""
    out = set()
    for s in n.body:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in names_of(x.value):
                out.add(x.targets[0].id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ('append', 'pop', 'add', 'extend', 'remove', 'popleft'):
                out.add(x.func.value.id)
    return out


def counted(body, count):
    """does every path through the block back to the head of the loop update a counter?"""
    ok = True

    def block(b, done):
        """is a counter updated when the block falls through (None: it does not)"""
        nonlocal ok
        for s in b:
            if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
                return None
            if isinstance(s, ast.Continue):
                ok = ok and done
                return None
            if isinstance(s, ast.If):
                done = done or mentions(s.test)
                r = [x for x in (block(s.body, done), block(s.orelse, done)) if x is not None]
                if not r:
                    return None
                done = all(r)
            elif isinstance(s, ast.With):
                done = block(s.body, done)
                if done is None:
                    return None
            elif isinstance(s, (ast.For, ast.While, ast.Try)):
                done = done or mentions(s)
            else:
                done = done or mentions(s)
        return done

    def mentions(s):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in count and not isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in count:
                return True
        return False
    return block(body, False) is not False and ok


def static(repo, tier):
    out, n = [], 0
    for root, _, files in os.walk(os.path.join(repo, 'dppy')):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(root, f)
            try:
                tree = ast.parse(open(path, encoding='utf8').read())
            except SyntaxError:
                continue
            rel = os.path.relpath(path, repo)
            for d in ast.walk(tree):
                if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for x in ast.walk(d):
                        if endless(x):
                            n += 1
                            b = unbounded(d, x)
                            if b:
                                out.append(finding('bound', '%s:%d' % (rel, x.lineno), rel[:-3].replace(os.sep, '.') + '.' + d.name, b,
                                                   'the number of proposals of this loop is not bounded: no exit depends on %s, or some iterations are not counted' % b))
                        if isinstance(x, ast.While):
                            n += 1
                            names = constant_loop(x)
                            if names:
                                out.append(finding('condition', '%s:%d' % (rel, x.lineno), rel[:-3].replace(os.sep, '.') + '.' + d.name, ','.join(names),
                                                   'nothing in the loop can change its condition `%s`, and it has no other exit: once entered it never ends' % ast.unparse(x.test)))
    return dict(findings=out, obligations=n, notes=[])
