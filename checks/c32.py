"""Combinatorial outputs.  (1) The random walks that build spanning trees are analysed as finite chains on small graphs (see C26); at every exit that can be reached, after walks of any
length, the edges returned must form a spanning tree of the graph.  (2) RSK only compares its inputs, so that the order types of the sequence (weak orders of its items) exhaust all inputs of a
length; for each of them the insertion is followed over the abstract lists, and the tableaux must have the same shape, rows that do not decrease, columns that increase, the items of the
sequence and the numbers 1..n as entries, with Q standard, and no two sequences may have the same pair of tableaux.  (3) Every leaf of the decision tree of the sampler of permutations is a
permutation.  (4) The ordering of multi-indices, as a closed value for each size and dimension, lists every multi-index once, by increasing maximal degree."""
import itertools
from checks import c26
from sa import chains, law, walks
from sa.chains import Tree, report
from sa.formula import fn
from sa.law import Undecided, BadProb
from sa.pit import NotEval

TITLE = 'combinatorial outputs'
LEVEL = 'other'
RULE = 'every reachable exit returns a spanning tree; tableaux, permutations and orderings have their defining property for all order types, draws and sizes analysed'
MAX_STATES = dict(quick=80, thorough=80)
OPE = 'multivariate_jacobi_ope.'


def weak_orders(n):
    return sorted({tuple(sorted(set(w)).index(x) for x in w) for w in itertools.product(range(n), repeat=n)}) if n else [()]


ORDER = [(N, d) for d in (1, 2, 3) for N in (1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 17) if d > 1 or N < 10]


def tasks(tier):
    for k in c26.WALKCASES:
        yield ('walk', k)
    for n in range(4 if tier == 'quick' else 5):
        yield ('rsk', n)
    for i in range(6):
        yield ('rsk4', i)
    for n in (1, 2, 3, 4):
        yield ('perm', n)
    for N, d in ORDER + ([(9, 4), (15, 4), (25, 2), (26, 2), (27, 3), (28, 3)] if tier == 'thorough' else [(15, 4), (27, 3)]):
        yield ('order', N, d)


def judge(r, task, res):
    res['runs'] += 1
    try:
        globals()[task[0]](r, task, res)
    except (Undecided, NotEval) as e:
        res['notes'].append('%s: %s' % (task, e))


def walk(r, task, res):
    t, nb = c26.WALKCASES[task[1]]
    w = walks.Walk(r, t, c26.graph)
    res['paths'] += len(w.nodes)
    ok = set(edges for edges in c26.trees(nb))
    try:
        reach = {x for x, q in w.law().items() if q > 1e-9}
    except Undecided:
        reach = {x for d in w.exits.values() for x, q in d.items() if q != 0}
    except BadProb:
        return
    for x in sorted((x for x in reach if isinstance(x, frozenset)), key=sorted):
        res['obligations'] += 1
        if x not in ok:
            res['findings'].append(report(r, 'tree', t, 'tree', 'on the graph %s, the edges %s can be returned, which are no spanning tree' % (c26.edges_of(nb), sorted(x))))
            return


def single(r, t):
    """the value of a call without draws"""
    tree = Tree(r, t)
    pt = chains.point({})
    out = [(st, v) for path, st, v in tree.leaves if pt.prob(path)[0] > 0]
    if len(out) != 1:
        if not out and tree.exc and not tree.leaves:
            raise Fails(str(tree.exc[0][2]))
        raise Undecided('%d values' % len(out))
    return law.content(r.p, *out[0], pt.ev)


class Fails(Exception):
    pass


def tableau(P, strict):
    if any(len(a) < len(b) for a, b in zip(P, P[1:])) or any(not a for a in P):
        return 'has no Young shape'
    for row in P:
        if any(x > y or strict and x == y for x, y in zip(row, row[1:])):
            return 'has a row that is not ordered'
    for a, b in zip(P, P[1:]):
        if any(x >= y for x, y in zip(a, b)):
            return 'has a column that does not increase'


def words(r, ws, res):
    seen = {}
    for w in ws:
        t = fn(c26.CORE + 'RSK', sequence='items:' + ','.join(map(str, w)))
        try:
            v = single(r, t)
        except Fails as e:
            res['findings'].append(report(r, 'tableaux', t, 'fails', 'RSK fails with %s' % e))
            return
        res['obligations'] += 1
        why = None
        if not isinstance(v, tuple) or len(v) != 2:
            raise Undecided('value %r' % (v,))
        P, Q = v
        if [len(x) for x in P] != [len(x) for x in Q]:
            why = 'the tableaux have the shapes %s and %s' % ([len(x) for x in P], [len(x) for x in Q])
        elif sorted(x for row in P for x in row) != sorted(w):
            why = 'the entries of P are not the items of the sequence'
        elif sorted(x for row in Q for x in row) != list(range(1, len(w) + 1)):
            why = 'the entries of Q are not 1..%d' % len(w)
        elif tableau(P, False) or tableau(Q, True):
            why = 'P %s' % tableau(P, False) if tableau(P, False) else 'Q %s' % tableau(Q, True)
        elif v in seen:
            why = 'the same tableaux as for %s' % (seen[v],)
        if why:
            res['findings'].append(report(r, 'tableaux', t, 'rsk', 'for items ordered like %s: %s (P=%s, Q=%s)' % (w, why, P, Q)))
            return
        seen[v] = w


def rsk(r, task, res):
    words(r, weak_orders(task[1]), res)


def rsk4(r, task, res):
    words(r, weak_orders(4)[task[1]::6], res)


def perm(r, task, res):
    n = task[1]
    t = fn(c26.CORE + 'uniform_permutation', N='c:%d' % n, random_state='rng')
    tree = Tree(r, t)
    pt = chains.point({})
    for path, st, v in tree.leaves:
        if pt.prob(path)[0] > 0:
            res['obligations'] += 1
            x = law.content(r.p, st, v, pt.ev)
            if sorted(x) != list(range(n)):
                res['findings'].append(report(r, 'permutation', t, 'perm', 'returns %s, which is no permutation of 0..%d' % (list(x), n - 1)))
                return


def order(r, task, res):
    N, d = task[1:]
    t = fn(OPE + 'compute_ordering', N='c:%d' % N, d='c:%d' % d)
    try:
        v = single(r, t)
    except Fails as e:
        res['findings'].append(report(r, 'ordering', t, 'fails', 'fails with %s' % e))
        return
    res['obligations'] += 1
    m = 0
    while (m + 1) ** d < N:
        m += 1
    ref = [x for k in range(m + 1) for x in itertools.product(range(k + 1), repeat=d) if max(x) == k][:N]
    if [tuple(x) for x in v] != ref:
        bad = next((i for i, (a, b) in enumerate(zip(v, ref)) if tuple(a) != b), min(len(v), len(ref)))
        res['findings'].append(report(r, 'ordering', t, 'order', '%d multi-indices, item %d is %s instead of %s' % (len(v), bad, v[bad] if bad < len(v) else 'missing', ref[bad] if bad < len(ref) else 'none')))
