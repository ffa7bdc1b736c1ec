"""Laws of the exotic DPPs.  The samplers of descents, carries, permutations, the Poissonized Plancherel measure and uniform spanning trees draw from finite sets.  They are analysed on small
instances with all draws enumerated (terms for the probabilities that depend on parameters), so that the leaves of the decision tree give the law of the sample.  The random walks of
the spanning tree samplers have no bound on their length; they are analysed as finite Markov chains: paths that reach a state of the local variables seen before are not followed
further, so that states, steps and exits are enumerated completely, and the law of the tree is the law of the absorbed chain.  The laws are compared with the definitions of the
processes, which this file states independently: uniform spanning trees, descents of uniform permutations, carries of sums of digits, Plancherel measure by hook lengths."""
import itertools
import math
import random
from sa import chains, law, walks
from sa.chains import Tree, differ, report
from sa.engine import const
from sa.formula import fn, obj
from sa.law import Undecided, BadProb, push
from sa.pit import NotEval
from sa.terms import T, C

TITLE = 'laws of exotic DPPs'
LEVEL = 'other'
RULE = 'law of the sample, extracted from the decision tree or the finite chain of the sampler, = law of the process by definition'
MAX_STATES = dict(quick=80, thorough=80)
EX = 'exotic_dpps.'
CORE = 'exotic_dpps_core.'


# ---------------------------------------------------------------- references
def uniform(xs):
    out = {}
    xs = list(xs)
    for x in xs:
        out[x] = out.get(x, 0.0) + 1.0 / len(xs)
    return out


def descents(s):
    return tuple(i for i in range(1, len(s)) if s[i - 1] > s[i])


def carries(base, n):
    def of(digits):
        return descents(list(x % base for x in itertools.accumulate(digits)))
    return uniform(of(d) for d in itertools.product(range(base), repeat=n))


def virtual(x0, n):
    """descents of a virtual permutation: an item is fixed with probability x0; a descent is a moved item before a fixed one, or a descent of the moved ones"""
    out = {}
    perms = list(itertools.permutations(range(n + 1)))
    for s in perms:
        for y in itertools.product((0, 1), repeat=n + 1):
            w = 1.0 / len(perms)
            for b in y:
                w *= x0 if b else 1 - x0
            k = tuple(i for i in range(n) if not y[i] and (y[i + 1] or s[i] > s[i + 1]))
            out[k] = out.get(k, 0.0) + w
    return out


def partitions(n, m=None):
    if n == 0:
        yield ()
    for k in range(min(n, n if m is None else m), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


def standard(lam):
    """number of standard tableaux of a shape: hook lengths"""
    conj = [sum(1 for r in lam if r > j) for j in range(lam[0])] if lam else []
    h = 1
    for i, r in enumerate(lam):
        for j in range(r):
            h *= r - j + conj[j] - i - 1
    return math.factorial(sum(lam)) // h


def plancherel(theta, nmax):
    out = {}
    for n in range(nmax + 1):
        for lam in partitions(n):
            out[lam] = math.exp(-theta) * theta ** n / math.factorial(n) * standard(lam) ** 2 / math.factorial(n)
    return out


def edges_of(nb):
    return sorted({tuple(sorted((i, j))) for i, x in enumerate(nb) for j in x})


def istree(n, es):
    comp = list(range(n))
    for a, b in es:
        x, y = comp[a], comp[b]
        if x == y:
            return False
        comp = [y if c == x else c for c in comp]
    return len(set(comp)) == 1


def trees(nb):
    return [frozenset(t) for t in itertools.combinations(edges_of(nb), len(nb) - 1) if istree(len(nb), t)]


# ---------------------------------------------------------------- cases
GRAPHS = dict(edge=((1,), (0,)), path=((1,), (0, 2), (1,)), triangle=((1, 2), (0, 2), (0, 1)), paw=((1, 2, 3), (0, 2), (0, 1), (0,)), diamond=((1, 2), (0, 2, 3), (0, 1, 3), (1, 2)),
              square=((1, 3), (0, 2), (1, 3), (0, 2)), mixed=((3, 1, 2), (2, 0), (0, 3, 1), (2, 0)), full=((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)))
WALKS = dict(Wilson='ust_sampler_wilson', AldousBroder='ust_sampler_aldous_broder')


def adj(nb):
    return 'adj:' + '/'.join(','.join(map(str, x)) for x in nb)


class Case:
    def __init__(self, key, task, ref, points=({},), tier='quick', read='sample', keep=None):
        self.key, self.task, self.ref, self.points, self.tier, self.read, self.keep = key, task, ref, points, tier, read, keep


CASES = []


def case(*a, **k):
    CASES.append(Case(*a, **k))


for N in (2, 3, 4):
    t = 'quick' if N < 4 else 'thorough'
    S = dict(size='c:%d' % N, random_state='rng')
    for b in (2, 3):
        case('carries-%d-%d' % (b, N), obj(EX + 'CarriesProcess', dict(base='c:%d' % b), ('sample', S)), lambda v, b=b, N=N: carries(b, N), tier=t if b ** N > 16 else 'quick')
    case('descents-%d' % N, obj(EX + 'DescentProcess', {}, ('sample', S)), lambda v, N=N: uniform(descents(s) for s in itertools.permutations(range(N))), tier='quick')
    case('permutation-%d' % N, fn(CORE + 'uniform_permutation', N='c:%d' % N, random_state='rng'), lambda v, N=N: uniform(itertools.permutations(range(N))), read='value')
for N in (1, 2):
    case('virtual-%d' % N, obj(EX + 'VirtualDescentProcess', dict(x_0='float'), ('sample', dict(size='c:%d' % N, random_state='rng'))), lambda v, N=N: virtual(v['x_0'], N),
         points=[dict(x_0=x) for x in (0.3, 0.5, 0.81)])
PL = [dict(theta=x) for x in (0.7, 2.3)]
case('plancherel', obj(EX + 'PoissonizedPlancherel', dict(theta='float'), ('sample', dict(random_state='rng'))),
     lambda v: {tuple(l - i + 0.5 for i, l in enumerate(lam, 1)): w for lam, w in plancherel(v['theta'], 4).items()}, points=PL)
case('diagrams', obj(EX + 'PoissonizedPlancherel', dict(theta='float'), ('sample', dict(random_state='rng'))), lambda v: plancherel(v['theta'], 4), points=PL, read='list_of_young_diag')
WALKCASES = {}
for g, nb in GRAPHS.items():
    for w, f in WALKS.items():
        for root in ('none', 'c:0', 'c:%d' % (len(nb) - 1)):
            k = 'ust-%s-%s-%s' % (w, g, root)
            WALKCASES[k] = (fn(CORE + f, list_of_neighbors=adj(nb), root=root, random_state='rng'), nb)
    for mode in ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol'):
        if g in ('triangle', 'paw', 'diamond', 'mixed') or mode in ('Wilson', 'Aldous-Broder', 'GS'):
            WALKCASES['UST-%s-%s' % (mode, g)] = (obj(EX + 'UST', dict(graph='graph:' + adj(nb)[4:]), ('sample', dict(mode="c:'%s'" % mode, random_state='rng'))), nb)
BY = {c.key: c for c in CASES}


def tasks(tier):
    for c in CASES:
        if tier == 'thorough' or c.tier == 'quick':
            yield (c.key,)
    for k in WALKCASES:
        yield (k,)


def draws(p, n, st, l, name, pos, kw):
    """Poisson variates up to 4 are enumerated (the law is compared for these)"""
    if name == 'poisson':
        a = dict(zip(('lam', 'size'), pos), **kw)
        lam = p.tm(st, a['lam']) if 'lam' in a else C(1.0)
        return [(push(st, n, T('weight', T('Mult', T('call', 'numpy.exp', T('USub', lam)), T('Div', T('Pow', lam, C(k)), C(float(math.factorial(k))))))), const(k)) for k in range(5)]
    return law.fork(p, n, st, l, name, pos, kw)


def judge(r, task, res):
    key = task[0]
    res['runs'] += 1
    try:
        if key in BY:
            tree_case(r, BY[key], res)
        else:
            walk_case(r, key, res)
    except (Undecided, NotEval) as e:
        res['notes'].append('%s: %s' % (key, e))


def tree_case(r, c, res):
    tree = Tree(r, c.task, draws=draws)

    def value(pt, st, v):
        if c.read == 'value':
            return law.content(r.p, st, v, pt.ev)
        name = 'list_of_samples' if c.read == 'sample' else c.read
        for o in st.heap.values():
            if o.kind == 'inst' and o.attrs and name in o.attrs:
                x = law.content(r.p, st, o.attrs[name], pt.ev)
                if not x:
                    raise NotEval('no sample')
                x = x[-1]
                return tuple(x)
        raise NotEval('no record of samples')
    for vals in c.points:
        try:
            d, e = tree.law(chains.point(dict(vals)), value)
        except BadProb as x:
            res['findings'].append(report(r, 'law', c.task, c.key.split('-')[0], 'at %s: %s' % (vals, x)))
            return
        ref = c.ref(vals)
        res['obligations'] += 1
        k = differ(d, {x: w for x, w in ref.items() if w > 1e-13})
        if k is not None:
            res['findings'].append(report(r, 'law', c.task, c.key.split('-')[0], 'the sample %s has probability %.4g instead of %.4g%s' % (
                k, d.get(k, 0.0), ref.get(k, 0.0), ''.join(' for %s=%s' % x for x in vals.items()))))
            return


def graph(w, st, v, edges):
    """the edges of the graph that is returned"""
    out, seen = [], 0
    for kind, e in edges:
        if e is None:
            raise Undecided('graph built in an unknown way')
        seen += kind == 'new'
        out += [tuple(sorted(x[:2])) for x in e]
    if seen != 1:
        raise Undecided('%d graphs' % seen)
    return frozenset(out)


def walk_case(r, key, res):
    t, nb = WALKCASES[key]
    w = walks.Walk(r, t, graph)
    res['paths'] += len(w.nodes)
    d = w.law()
    ref = uniform(trees(nb))
    res['obligations'] += 1
    for x in d:
        if isinstance(x, tuple) and x and x[0] == 'raise' and d[x] > 1e-9:
            res['findings'].append(report(r, 'law', t, 'fails', 'the walk on the graph %s ends with %s' % (edges_of(nb), x[1])))
            return
    k = differ({x: q for x, q in d.items() if isinstance(x, frozenset)}, ref)
    if k is not None:
        what = 'is returned with probability %.4g instead of %.4g (uniform on the spanning trees of %s)' % (d.get(k, 0.0), ref.get(k, 0.0), edges_of(nb))
        res['findings'].append(report(r, 'law', t, 'uniform', 'the edge set %s %s' % (sorted(k), what)))
