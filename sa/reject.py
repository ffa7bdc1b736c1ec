"""Rejection samplers: decision trees over two iterations of the loop of proposals.

Continuous proposals stay symbolic variates, numbered in the order of execution; long loops are cut after two iterations, whose exhaustion then stands for the exhaustion of all trials.
At a point with values for the variates of the proposals, the remaining uniform variates are integrated as in law.py, so every leaf yields the probability of its acceptance as a function
of the proposal, and the density of the value follows from the density of the proposal and the derivative of the value.
"""
import math
import random
from .terms import T, C, Term, subterms, show
from .engine import Giveup, const, unk, cval
from . import law, pit
from .law import Undecided, BadProb, NotEval, Point, push, depth, number, uses, UMEMO, EPS
from .pit import Arr

PROPOSALS = ('randn', 'normal', 'standard_normal', 'gamma', 'standard_gamma', 'beta', 'exponential', 'standard_exponential', 'chisquare', 'poisson', 'binomial', 'multivariate_normal')
ITER = 2
LONG = 8


def proposal(p, n, st, l, name, pos, kw):
    """a draw that is a symbolic variate"""
    s = push(st, n, T('unif'))
    k = depth(s, 'unif')
    t = T('var', k, name, *([p.tm(s, v) for v in pos] + [T('kw', q, p.tm(s, v)) for q, v in sorted(kw.items())]))
    ps = {'normal': 2, 'gamma': 2, 'beta': 2, 'poisson': 1, 'binomial': 2, 'exponential': 1, 'chisquare': 1, 'choice': 1}.get(name, 0)
    size = kw.get('size')
    if name == 'randn':
        size = pos or None
    elif len(pos) > ps:
        size = pos[ps]
    args = [v for q, v in kw.items() if q != 'size'] + list(pos[:ps])
    vector = (size is not None and not (not isinstance(size, (list, tuple)) and cval(size) == (True, None))) or any(is_array(p, s, v) for v in args if name != 'choice')
    typ = 'int' if name in ('poisson', 'binomial', 'choice') else 'float'
    if vector:
        return [(s, p.newarr(s, n, t, frozenset(), typ=typ))]
    return [(s, unk(t, frozenset(), typ))]


def is_array(p, st, v):
    o = p.the_obj(st, v)
    return o is not None and o.kind == 'array'


def fork(p, n, st, l, name, pos, kw):
    if any(k == '**' for k in kw):
        raise Giveup('draw with unknown arguments')
    if name in PROPOSALS and not (name == 'binomial' and len(pos) == 2 and cval(pos[0]) == (True, 1)):
        return proposal(p, n, st, l, name, pos, kw)
    if name == 'choice':
        size = kw.get('size') or (pos[1] if len(pos) > 1 else None)
        if size is not None and not cval(size)[0]:
            return proposal(p, n, st, l, name, pos, kw)
    if name in law.UNIT and (name != 'uniform' or not pos and set(kw) <= {'size'}):
        size = pos[0] if len(pos) == 1 else kw.get('size') if not pos else None
        k = number(p, st, size, None) if size is not None else None
        if k is not None and 0 < k <= 6:
            s, items = st, []
            for _ in range(k):
                s = push(s, n, T('unif'))
                items.append(unk(T('U', depth(s, 'unif')), frozenset(), 'float'))
            return [(s, p.newlist(s, n, 'tuple', tuple(items), None, frozenset()))]
    r = law.fork(p, n, st, l, name, pos, kw)
    if name in ('randint', 'integers', 'random_integers', 'choice', 'permutation') and r:
        res = []
        for s, v in r:
            s = push(s, n, T('env', 'drawn', p.tm(s, v)))
            res.append((s, v))
        return res
    return r


INFO = T('param', 'intermediate_sample_info')
ARRAYS = {'rls_estimate': 'float', 'rls_upper_bound': 'float', 'rls_upper_bound_valid': 'bool', 'eigvals_L_hat': 'float', 'eigvecs_L_hat': 'float', 'diag_L': 'float'}


def info(p, st, b, name, n):
    """fields of the precomputed constants are arrays"""
    if b.term is INFO and name in ARRAYS:
        return p.newarr(st, n, T('attr', INFO, name), frozenset(), typ=ARRAYS[name])
    return None


def shorten(r):
    return tuple(r[:ITER - 1]) + (r[-1],) if len(r) > LONG else r


# ---------------------------------------------------------------- points
class RPoint(Point):
    """a point with values for the variates of proposals"""
    def __init__(self, env, hook=None):
        Point.__init__(self, env, hook)
        self.bound = frozenset(t.args[0] for t in env if isinstance(t, Term) and t.op == 'U')

    def free(self, t):
        return uses(t, UMEMO) - self.bound if self.bound else uses(t, UMEMO)

    def with_(self, more):
        e = dict(self.env)
        e.update(more)
        return RPoint(e, self.hook)

    def general(self, u, cs, lo, hi, n=24):
        if hi <= lo:
            return 0.0

        def ok(x):
            e = dict(self.env)
            e[u] = x
            ev = law.Ev(e, None, self.hook)
            try:
                return all(self.truth(ev, t) == b for t, b in cs)
            except NotEval as e:
                raise Undecided('condition: %s' % e)
        g = {lo + 1e-300, hi}
        for i in range(1, n):
            g |= {lo + (hi - lo) * i / n}
        for i in range(6, 60, 6):
            g |= {lo + (hi - lo) * 2.0 ** -i, hi - (hi - lo) * 2.0 ** -i if i < 48 else hi}
        xs = sorted(g)
        vs = [ok(x) for x in xs]
        tot = 0.0
        for i in range(len(xs) - 1):
            a, b = xs[i], xs[i + 1]
            if vs[i] and vs[i + 1]:
                tot += b - a
            elif vs[i] != vs[i + 1]:
                l, h = a, b
                for _ in range(60):
                    m = (l + h) / 2
                    if ok(m) == vs[i]:
                        l = m
                    else:
                        h = m
                tot += (l - a) if vs[i] else (b - h)
        return tot


def variates(t):
    """the variates a term depends on: the scalar uniform ones and the proposals"""
    return [s for s in sorted(subterms(t), key=repr) if s.op in ('U', 'var')]


def args_of(pt, v):
    """named parameters of a proposal"""
    names = {'normal': ('loc', 'scale'), 'gamma': ('shape', 'scale'), 'beta': ('a', 'b'), 'poisson': ('lam',), 'binomial': ('n', 'p'), 'exponential': ('scale',), 'chisquare': ('df',),
             'standard_gamma': ('shape',)}.get(v.args[1], ())
    d = {'loc': 0.0, 'scale': 1.0}
    i = 0
    for a in v.args[2:]:
        if a.op == 'kw':
            if a.args[0] != 'size':
                d[a.args[0]] = pt.ev(a.args[1])
        elif i < len(names):
            d[names[i]] = pt.ev(a)
            i += 1
    return d


def num(x):
    if isinstance(x, Arr):
        if len(x.data) != 1:
            raise NotEval('array')
        x = x.data[0]
    return float(x)


def density(pt, v, x):
    """log density of a proposal at a number"""
    if v.op == 'U':
        return 0.0 if 0 <= x <= 1 else -math.inf
    m, a = v.args[1], args_of(pt, v)
    if m in ('normal', 'randn', 'standard_normal'):
        s = num(a['scale'])
        return -0.5 * ((x - num(a['loc'])) / s) ** 2 - math.log(s * math.sqrt(2 * math.pi))
    if m in ('gamma', 'standard_gamma'):
        k, s = num(a['shape']), num(a['scale'])
        return (k - 1) * math.log(x / s) - x / s - math.lgamma(k) - math.log(s) if x > 0 else -math.inf
    if m == 'chisquare':
        k = num(a['df']) / 2
        return (k - 1) * math.log(x / 2) - x / 2 - math.lgamma(k) - math.log(2) if x > 0 else -math.inf
    if m in ('exponential', 'standard_exponential'):
        s = num(a['scale'])
        return -x / s - math.log(s) if x >= 0 else -math.inf
    if m == 'beta':
        p, q = num(a['a']), num(a['b'])
        return (p - 1) * math.log(x) + (q - 1) * math.log(1 - x) + math.lgamma(p + q) - math.lgamma(p) - math.lgamma(q) if 0 < x < 1 else -math.inf
    if m == 'poisson':
        l = num(a['lam'])
        return x * math.log(l) - l - math.lgamma(x + 1)
    raise Undecided('density of %s' % m)


def domain(pt, v):
    if v.op == 'U':
        return 1e-12, 1 - 1e-12
    m, a = v.args[1], args_of(pt, v)
    if m in ('normal', 'randn', 'standard_normal'):
        l, s = num(a['loc']), num(a['scale'])
        return l - 30 * s, l + 30 * s
    if m == 'beta':
        return 1e-12, 1 - 1e-12
    if m in ('gamma', 'standard_gamma', 'exponential', 'standard_exponential', 'chisquare'):
        return 1e-12, 60 * num(a['scale']) * (1 + num(a.get('shape', a.get('df', 1.0))))
    raise Undecided('domain of %s' % m)


# ---------------------------------------------------------------- trees
class Rejection:
    """the leaves of the tree, by the iteration that returns the value"""
    def __init__(self, r, task, intercept=None, limit=4000, value=None):
        self.p = r.p
        self.task = task
        r.p.hooks['range_'] = shorten
        r.p.hooks['attr_'] = info
        try:
            self.leaves, self.exc = law.leaves(r, task, limit, intercept=intercept, draws=fork)
        finally:
            r.p.hooks.pop('range_', None)
            r.p.hooks.pop('attr_', None)
        self.value = value or (lambda p, st, v: p.tm(st, v))
        self.out = []
        for path, st, v in self.leaves:
            if any(x[4] is None for x in path if len(x) > 4):
                raise Undecided('condition without a term')
            t = self.value(self.p, st, v)
            self.out.append((path, st, t, tuple(x[4].args[1:] for x in path if len(x) > 4 and x[4].op == 'env' and x[4].args[0] == 'drawn')))
        self.vars = {}
        for path, st, t, dr in self.out + [(p_, s_, None, ()) for p_, s_, _ in self.exc]:
            for x in path:
                for s in subterms(x[4]):
                    if s.op in ('U', 'var'):
                        self.vars.setdefault(s.args[0], set()).add(s)
            if t is not None:
                for s in subterms(t):
                    if s.op in ('U', 'var'):
                        self.vars.setdefault(s.args[0], set()).add(s)

    def numbers(self, leaf, op):
        return sorted({(s.args[0], s) for x in leaf[0] for s in subterms(x[4]) if s.op == op} | {(s.args[0], s) for s in subterms(leaf[2]) if s.op == op}, key=lambda q: (q[0], repr(q[1])))

    def methods(self, leaf):
        """kinds of the proposals drawn on a path, in order"""
        d = {}
        for i, s in self.numbers(leaf, 'var'):
            d.setdefault(i, s.args[1])
        return [d[i] for i in sorted(d)]

    def impossible(self, z, leaf, kinds):
        """does a condition fail that comes before the first variate that is not one of these?"""
        d = {}
        for x in reversed(leaf[0]):
            t = x[4]
            for s in subterms(t):
                if s.op == 'var':
                    d.setdefault(s.args[0], s.args[1])
            now = [d[i] for i in sorted(d)]
            if now != kinds[:len(now)]:
                return False
            if t.op not in ('unif', 'weight', 'env') and not any(s.op == 'U' for s in subterms(t)) and z.truth(z.ev, t) != x[2]:
                return True
        return False

    def fixed(self, leaf, var):
        if var:
            return sorted({i for i, s in self.numbers(leaf, 'var')})
        vs = {s.args[0] for s in subterms(leaf[2]) if s.op == 'U'}
        if len(vs) != 1:
            raise Undecided('value of %d variates' % len(vs))
        return list(vs)

    def depth(self, path):
        return sum(1 for x in path if x[4].op == 'unif')

    def minimal(self, pt):
        """the paths with the smallest number of variates, of those that the arguments admit"""
        if getattr(pt, 'least', None) is None:
            memo, out = {}, []

            def admits(path):
                for x in reversed(path):
                    if id(x) not in memo:
                        t, ok = x[4], True
                        if t.op not in ('unif', 'weight', 'env') and not any(s.op in ('U', 'var') for s in subterms(t)):
                            ok = pt.truth(pt.ev, t) == x[2]
                        memo[id(x)] = (ok, x)
                    if not memo[id(x)][0]:
                        return False
                return True
            out = [x for x in self.out if admits(x[0])]
            m = min([self.depth(x[0]) for x in out] or [0])
            pt.least, pt.admitted = (m, [x for x in out if self.depth(x[0]) == m]), out
        return pt.least


class Walk:
    """one execution of a tree with values for all variates: drawn at random, or given"""
    def __init__(self, tree, pt, rnd, given=None, drawn=None):
        self.tree, self.rnd, self.given = tree, rnd, given
        self.env = dict(pt.env)
        self.hook = pt.hook
        self.vals, self.drawn = {}, dict(drawn or {})
        self.memo = {}
        self.result = None
        for path, st, t, d in tree.out:
            if self.holds(path):
                self.leaf, self.path = (st, t), path
                self.result = 'value'
                return
        for path, st, x in tree.exc:
            if self.holds(path):
                self.result, self.path = 'raises', path
                return

    def ev(self, t):
        for s in sorted((s for s in subterms(t) if s.op in ('U', 'var')), key=lambda s: s.args[0]):
            self.bind(s)
        return law.Ev(self.env, None, self.hook)(t)

    def bind(self, s):
        k = s.args[0]
        if k not in self.vals:
            if self.given is not None:
                raise Exhausted()
            for q in s.args[2:] if s.op == 'var' else ():
                for z in subterms(q):
                    if z.op in ('U', 'var'):
                        self.bind(z)
            self.vals[k] = draw(self.rnd, RPoint(self.env, self.hook), s)
        if s not in self.env:
            self.env[s] = self.vals[k]

    def holds(self, path):
        """path: entries newest first"""
        for i in range(len(path) - 1, -1, -1):
            x = path[i]
            k = id(x)
            if k not in self.memo:
                self.memo[k] = (self.entry(x, path, i), x)
            if not self.memo[k][0]:
                return False
        return True

    def entry(self, x, path, i):
        t = x[4]
        if t.op in ('unif', 'weight') or t.op == 'env' and t.args[0] != 'drawn':
            return True
        if t.op == 'env':
            j = sum(1 for y in path[i + 1:] if y[4].op == 'env' and y[4].args[0] == 'drawn')
            if j not in self.drawn:
                self.drawn[j] = self.rnd.choice(sorted({p_[q][4] for p_, _, _, _ in self.tree.out for q in range(len(p_))
                                                        if p_[q][4].op == 'env' and p_[q][4].args[0] == 'drawn' and sum(1 for y in p_[q + 1:] if y[4].op == 'env' and y[4].args[0] == 'drawn') == j}, key=repr))
            return self.drawn[j] is t
        v = self.ev(t)
        if isinstance(v, Arr):
            if len(v.data) != 1:
                raise NotEval('array condition')
            v = v.data[0]
        if isinstance(v, (tuple, list)):
            v = len(v)
        return bool(v) == x[2]


class Exhausted(Exception):
    pass


def poisson(rnd, lam):
    n, p, s = 0, math.exp(-lam), rnd.random()
    c = p
    while c < s and n < 500:
        n += 1
        p *= lam / n
        c += p
    return n


def draw(rnd, pt, v):
    """a random value of a variate"""
    if v.op == 'U':
        return rnd.random()
    m = v.args[1]
    size = next((pt.ev(a.args[1]) for a in v.args[2:] if a.op == 'kw' and a.args[0] == 'size'), None)
    pos = [a for a in v.args[2:] if a.op != 'kw']
    if m == 'point':
        n = int(num(pt.ev(pos[0])))
        return Arr((n,), [rnd.uniform(-1, 1) for _ in range(n)])
    if m == 'choice':
        kw = {a.args[0]: pt.ev(a.args[1]) for a in v.args[2:] if a.op == 'kw'}
        xs = pt.ev(pos[0]) if pos else kw['a']
        xs = list(range(int(num(xs)))) if not isinstance(xs, (tuple, list)) and (not isinstance(xs, Arr) or xs.shape == ()) else list(xs.data if isinstance(xs, Arr) else xs)
        n = int(num(pt.ev(pos[1]) if len(pos) > 1 else kw['size']))
        if kw.get('replace', True) is False or kw.get('replace', True) == 0:
            raise Undecided('choice without replacement')
        w = list(kw['p'].data) if 'p' in kw and kw['p'] is not None else [1.0] * len(xs)
        return Arr((n,), rnd.choices(xs, weights=w, k=n))
    if m == 'randn':
        shape = pit.shape_arg(tuple(pt.ev(a) for a in pos))
        a = {}
    else:
        a = args_of(pt, v)
        names = {'normal': 2, 'gamma': 2, 'beta': 2, 'binomial': 2, 'poisson': 1, 'exponential': 1, 'chisquare': 1}
        if len(pos) > names.get(m, 0):
            size = pt.ev(pos[names.get(m, 0)])
        shape = pit.shape_arg(size) if size is not None else pit.bshape(*[pit.arr(x).shape for x in a.values()] or [()])
    a = {k: pit.broadcast(pit.arr(x), shape) for k, x in a.items()}
    res = []
    for i in range(pit.size_of(shape)):
        g = {k: x[i] for k, x in a.items()}
        if m in ('randn', 'standard_normal', 'normal'):
            res.append(g.get('loc', 0.0) + g.get('scale', 1.0) * rnd.gauss(0, 1))
        elif m in ('gamma', 'standard_gamma'):
            res.append(rnd.gammavariate(g['shape'], g['scale']))
        elif m == 'beta':
            res.append(rnd.betavariate(g['a'], g['b']))
        elif m in ('exponential', 'standard_exponential'):
            res.append(rnd.expovariate(1 / g['scale']))
        elif m == 'chisquare':
            res.append(rnd.gammavariate(g['df'] / 2, 2.0))
        elif m == 'poisson':
            res.append(poisson(rnd, g['lam']))
        elif m == 'binomial':
            res.append(sum(rnd.random() < g['p'] for _ in range(int(g['n']))))
        else:
            raise Undecided('variates of %s' % m)
    return res[0] if shape == () else Arr(tuple(shape), res)


def same(a, b, tol=1e-9):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        a, b = pit.arr(a), pit.arr(b)
        return a.shape == b.shape and all(same(x, y, tol) for x, y in zip(a.data, b.data))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    return a == b


# ---------------------------------------------------------------- densities
def components(v):
    """scalar components of a value"""
    if isinstance(v, Arr):
        return list(v.data)
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in components(y)]
    return [v]


class Law1:
    """density of a scalar value accepted at once, at a point"""
    def __init__(self, tree, pt, pick):
        self.tree, self.pt, self.pick = tree, pt, pick
        self.m, self.least = tree.minimal(pt)
        self.maps = {}

    def base(self, t):
        vs = variates(t)
        if len(vs) != 1:
            raise Undecided('value of %d variates' % len(vs))
        return vs[0]

    def at(self, t, b, d):
        z = self.pt.with_({s: d for s in self.tree.vars[b.args[0]] if s.op == b.op})
        return z, num(self.pick(z.ev(t)))

    def inverse(self, t, b, x):
        lo, hi = domain(self.pt, b)
        f = lambda d: self.at(t, b, d)[1]
        flo, fhi = f(lo), f(hi)
        if not min(flo, fhi) < x < max(flo, fhi):
            return None
        up = fhi > flo
        for _ in range(200):
            m = (lo + hi) / 2
            if (f(m) < x) == up:
                lo = m
            else:
                hi = m
            if hi - lo <= 1e-15 * max(1e-3, abs(lo)):
                break
        return (lo + hi) / 2

    def __call__(self, x):
        """density at a number, up to the probability of acceptance"""
        tot = 0.0
        for path, st, t, dr in self.least:
            b = self.base(t)
            k = (t, x)
            if k not in self.maps:
                d = self.inverse(t, b, x)
                if d is not None:
                    lo, hi = domain(self.pt, b)
                    h = 1e-5 * min(d - lo, hi - d)
                    z, _ = self.at(t, b, d)
                    slope = abs(self.at(t, b, d + h)[1] - self.at(t, b, d - h)[1]) / (2 * h)
                    w = math.exp(density(self.pt, b, d)) / slope if slope > 0 else math.inf
                    self.maps[k] = (z, w)
                else:
                    self.maps[k] = None
            if self.maps[k] is None:
                continue
            z, w = self.maps[k]
            tot += z.prob(path)[0] * w
        return tot


# ---------------------------------------------------------------- samplers
class Case:
    def __init__(self, key, task, points, at=None, drop=True, law=None, intercept=None, value=None, hook=None, show=lambda v: v, tier='quick', xs=None):
        self.key, self.task, self.points, self.at, self.drop, self.law, self.intercept, self.value, self.hook, self.show, self.tier, self.xs = key, task, points, at, drop, law, intercept, value, hook, show, tier, xs

    def tree(self, r):
        return Rejection(r, self.task, intercept=self.intercept, value=self.value)

    def compare(self, tree, n, res):
        """points at which the density differs from the documented one"""
        rr = random.Random(3)
        bad, notes = [], []
        for _ in range(n):
            pt = self.point(rr)
            f, g = Law1(tree, pt, self.show), self.law(pt.vals)
            rows = []
            for x in self.xs(pt.vals, rr):
                try:
                    y = f(x)
                except (Undecided, NotEval, ZeroDivisionError, OverflowError) as e:
                    notes.append(str(e)[:120])
                    continue
                rows.append((x, math.log(y) if y > 0 else -math.inf, g(x)))
            res['obligations'] += len(rows)
            rows = [z for z in rows if max(z[1], z[2]) > -25]
            fin = sorted(z[1] - z[2] for z in rows if z[1] > -math.inf and z[2] > -math.inf)
            if not fin:
                if len(rows) > 3:
                    bad.append('no proposal is accepted')
                continue
            c = fin[len(fin) // 2]
            odd = [z for z in rows if not abs(z[1] - z[2] - c) < 1e-4]
            if odd:
                x, y, w = odd[0]
                bad.append('the density of the accepted proposals at %.4g is %.5g, relative to the median point, and the documented density is %.5g' % (x, math.exp(y - c), math.exp(w)))
        return bad, notes

    def again(self, tree, n, res):
        """a second proposal is drawn and accepted independently of the first, rejected one"""
        rr = random.Random(5)
        bad, notes = [], []
        for _ in range(2 * n):
            pt = self.point(rr)
            m, least = tree.minimal(pt)
            ids = {id(x[0]) for x in least}
            groups = {}
            for x in pt.admitted:
                g = groups.setdefault(x[3], ([], []))
                g[0 if id(x[0]) in ids else 1].append(x)
            for dr, (one, two) in groups.items():
                if not one or not two:
                    continue
                kinds = {tuple(tree.methods(x)) for x in one}
                if len(kinds) != 1:
                    return bad, ['proposals of several kinds: %s' % (kinds or (kind, ks[:2]),)]
                kind = list(kinds.pop())
                k = len(kind)
                if kind:
                    ks = [tree.methods(x) for x in two]
                    if all(k < len(y) < 2 * k and y[:k] == kind and y[k:] == kind[2 * k - len(y):] for y in ks):
                        bad += ['after a rejection, a part of the rejected proposal is kept: the variates of two proposals are %s' % ', '.join(ks[0])] * 2
                        return bad, notes
                    odd = [x for x, y in zip(two, ks) if y != kind * 2]
                    two = [x for x, y in zip(two, ks) if y == kind * 2]
                    if not two:
                        return bad, ['proposals of several kinds']
                try:
                    one, two = [(x, tree.fixed(x, bool(kind))) for x in one], [(x, tree.fixed(x, bool(kind))) for x in two]
                    if not kind:
                        k = 1
                        b = {tuple(y) for _x, y in one}
                        if len(b) != 1:
                            raise Undecided('several bases')
                        two = [(x, list(list(b)[0]) + y) for x, y in two]
                    xs = []
                    z = pt
                    for i in two[0][1]:
                        v = [s for j, s in tree.numbers(two[0][0], 'var' if kind else 'U') if j == i][0]
                        xs.append(draw(rr, z, v) if kind else rr.random())
                        z = z.with_({s: xs[-1] for s in tree.vars[i] if s.op == v.op})
                    if kind and not all(tree.impossible(z, x, kind * 2) for x in odd):
                        raise Undecided('proposals of several kinds')

                    def total(ys, vals):
                        best = {}
                        for x, nums in ys:
                            z = pt.with_({s: u for i, u in zip(nums, vals) for s in tree.vars[i] if s.op == ('var' if kind else 'U')})
                            key = frozenset((e[4], e[2]) for e in x[0] if any(s.op == 'U' for s in subterms(e[4])))
                            best[key] = max(best.get(key, 0.0), y_prob(z, x[0]))     # paths that differ by undecided details only
                        return sum(best.values())
                    a1, a2, p = total(one, xs[:k]), total(one, xs[k:]), total(two, xs)
                except (Undecided, NotEval, BadProb, ZeroDivisionError, OverflowError, IndexError, ValueError, KeyError) as e:
                    notes.append('%s: %s' % (type(e).__name__, str(e)[:150]))
                    continue
                res['obligations'] += 1
                if abs(p - (1 - a1) * a2) > 1e-5:
                    bad.append('a first proposal is rejected with probability %.4g, and a second one accepted with probability %.4g; but both happens with probability %.4g' % (1 - a1, a2, p))
        return bad, notes[:1]

    def point(self, r):
        from .formula import bind
        vals = self.points(r)
        env, _ = bind(vals)
        pt = RPoint(env, self.hook)
        pt.vals = vals
        return pt


CASES = []


def case(key, task, points, **kw):
    CASES.append(Case(key, task, points, **kw))


from .formula import fn, obj        # noqa: E402
from .pit import Poly               # noqa: E402
BC = 'beta_ensemble_polynomial_potential_core.'
first = lambda v: v[0] if isinstance(v, (tuple, list)) else v       # noqa: E731


def quartic(r):
    return Poly([r.uniform(.3, 1.5), 0.0, r.uniform(-.5, 1.5), r.uniform(-2, 2), 0.0])


def quadratic(r, lo=.3):
    return Poly([r.uniform(.3, 1.5), r.uniform(lo, 2), 0.0])


def roots_at(p, st, n, name):
    return p.newarr(st, n, T('param', name), frozenset(), typ='float')


def rep_points(p, fn_, pos, kw, st, n):
    """the mode, and the points left and right of it, are arguments"""
    q = fn_.qual.split('.')[-1]
    if q.startswith('find_mode'):
        return [(st, unk(T('param', 'mode'), frozenset(), 'float'))]
    if q in ('find_b_a_convex_quartic', 'find_a_b_convex_gen_gamma'):
        return [(st, roots_at(p, st, n, 'ba'))]
    return None


def mode_of(P, shape=None):
    """root of (shape - 1)/x = P'(x), or of P'(x) = 0, by bisection"""
    d = pit.pderiv(P)
    f = (lambda x: d(x)) if shape is None else (lambda x: x * d(x) - (shape - 1))
    lo, hi = (-50.0, 50.0) if shape is None else (1e-9, 50.0)
    for _ in range(200):
        m = (lo + hi) / 2
        if f(m) < 0:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def with_mode(vals, r):
    m = mode_of(vals['P'], vals.get('shape'))
    lo = 1.0 if 'shape' not in vals else min(1.0, 0.95 * m)
    return dict(vals, mode=m, ba=Arr((2,), [-lo * r.uniform(.5, 1), r.uniform(.5, 1.5)]))


def log_quartic(v):
    return lambda x: -v['P'](x)


def log_gamma(v):
    return lambda x: (v['shape'] - 1) * math.log(x) - v['P'](x) if x > 0 else -math.inf


def spread(lo, hi):
    return lambda v, r: [lo + (hi - lo) * (i + r.random()) / 16 for i in range(16)]


case('trunc_gaussian', fn(BC + 'trunc_gaussian_sampler', b='float', mu='float', var='float', random_state='rng'),
     lambda r: (lambda b: dict(b=b, mu=b + r.choice((-1, -1, 1)) * r.uniform(.1, 1.5), var=r.uniform(.3, 2)))(r.uniform(-1, 1)), at=BC + 'trunc_gaussian_sampler', show=first,
     law=lambda v: lambda x: -(x - v['mu']) ** 2 / (2 * v['var']) if x > v['b'] else -math.inf, xs=lambda v, r: [v['b'] + x for x in spread(-1, 3)(v, r)])
case('gen_gamma', fn(BC + 'gen_gamma_alpha_lt_1_sampler', shape='float', P='poly', random_state='rng'),
     lambda r: dict(shape=r.uniform(.2, .95), P=quadratic(r)), at=BC + 'gen_gamma_alpha_lt_1_sampler', show=first, law=log_gamma, xs=spread(0.01, 2.5))
QU = BC + 'sampler_exact_convex_quartic'
case('quartic', fn(QU, P='poly', shape='none', random_state='rng'), lambda r: with_mode(dict(P=quartic(r)), r), at=QU, show=first, intercept=rep_points, law=log_quartic, xs=spread(-3, 3))
for key, lo, hi in (('gamma', 1.2, 4), ('one', 1, 1), ('small', .2, .95)):
    case('quadratic_' + key, fn(QU, P='poly', shape='float' if lo < hi else 'c:1.0', random_state='rng'), lambda r, lo=lo, hi=hi: with_mode(dict(shape=r.uniform(lo, hi), P=quadratic(r, -1.5)), r)
         if hi > 1 else dict(shape=r.uniform(lo, hi), P=quadratic(r, .3 if lo < hi else -1.5)), at=QU, show=first, intercept=rep_points, law=log_gamma, xs=spread(0.01, 3))
case('linear', fn(QU, P='poly', shape='float', random_state='rng'), lambda r: dict(shape=r.uniform(.4, 3), P=Poly([r.uniform(.3, 2), 0.0])), at=QU, show=first, intercept=rep_points,
     law=log_gamma, xs=spread(0.01, 3), drop=False)


class ChainCase(Case):
    """a chain with a continuous state: one step is reversible with respect to exp(-V), and two steps are one step after another"""
    def state(self, pt, x):
        from .formula import bind
        vals = dict(pt.vals, x=x)
        z = RPoint(bind(vals)[0])
        z.vals = vals
        return z

    def moves(self, tree, pt, ds):
        """(value, probability) of the leaves, given the variates of the proposals"""
        z = pt.with_({s: d for k, d in zip(self.vars(tree), ds) for s in tree.vars[k] if s.op == 'var'})
        return [(num(z.ev(t)), z.prob(path)[0]) for path, st, t, dr in tree.minimal(pt)[1]]

    def vars(self, tree):
        return [k for k in sorted(tree.vars) if any(s.op == 'var' for s in tree.vars[k])]

    def tree(self, r):
        t = super().tree(r)
        n, m, spec = self.task
        t.two = Rejection(r, (n, m, frozenset(dict(spec, nb_steps='c:2').items())))
        return t

    def law1(self, tree, x, pt):
        f = Law1(tree, self.state(pt, x), num)
        f.least = [y for y in f.least if variates(y[2])]
        return f

    def compare(self, tree, n, res):
        rr = random.Random(3)
        bad, notes = [], []
        for _ in range(2 * n):
            pt = self.point(rr)
            x, V = pt.vals['x'], pt.vals['V']
            for path, st, t, dr in tree.minimal(pt)[1]:
                if not variates(t) and abs(num(pt.ev(t)) - x) > 1e-9:
                    bad.append('a rejected move goes from %.4g to %.4g' % (x, num(pt.ev(t))))
            for _ in range(4):
                y = x + rr.uniform(-1, 1)
                a, b = self.law1(tree, x, pt)(y), self.law1(tree, y, pt)(x)
                res['obligations'] += 1
                if max(a, b) < 1e-8:
                    continue
                if abs(math.log(a / b) - V(x) + V(y)) > 1e-4 if min(a, b) > 0 else True:
                    bad.append('the density of moves from %.4g to %.4g is %.5g, and %.5g in the opposite direction; the densities exp(-V) have ratio %.5g' % (x, y, a, b, math.exp(V(y) - V(x))))
            d = [rr.gauss(0, 1), rr.gauss(0, 1)]
            want = [(v2, p1 * p2) for v1, p1 in self.moves(tree, self.state(pt, x), d[:1]) for v2, p2 in self.moves(tree, self.state(pt, v1), d[1:])]
            have = self.moves(tree.two, self.state(pt, x), d)
            tot = lambda ms, v: sum(q for u, q in ms if abs(u - v) < 1e-7)        # noqa: E731
            res['obligations'] += 1
            for v, _q in want + have:
                if abs(tot(want, v) - tot(have, v)) > 1e-6:
                    bad.append('two steps from %.4g with the proposals of variates %s end in %.4g with probability %.5g; one step after another gives %.5g' % (x, [round(u, 3) for u in d], v, tot(have, v), tot(want, v)))
        return bad, notes


MA = BC + 'sampler_mala'
CASES.append(ChainCase('mala', fn(MA, x='float', V='poly', sigma='float', nb_steps='c:1', random_state='rng'),
                       lambda r: dict(x=r.uniform(-1, 1), V=Poly([r.uniform(.2, 1), r.uniform(-1, 1), r.uniform(-.5, 1), r.uniform(-1, 1), 0.0]), sigma=r.uniform(.4, 1.2)), at=MA, drop=False, law=True))


# ---------------------------------------------------------------- multivariate Jacobi ensembles
def jacobian(f, d, h=1e-5):
    n = len(d)
    cols = []
    for j in range(n):
        a, b = list(d), list(d)
        k = h * min(1 - d[j], d[j])
        a[j] += k
        b[j] -= k
        cols.append([(x - y) / (2 * k) for x, y in zip(f(a), f(b))])
    return abs(pit.F['det'](Arr((n, n), [cols[j][i] for i in range(n) for j in range(n)])))


class VectorCase(Case):
    """one vector of variates in the unit cube is the proposal; for each index drawn before, the density is known up to a constant"""
    def compare(self, tree, n, res):
        rr = random.Random(3)
        bad, notes = [], []
        for _ in range(n):
            pt = self.point(rr)
            m, least = tree.minimal(pt)
            groups = {}
            for x in least:
                groups.setdefault(x[3], []).append(x)
            for dr, xs in groups.items():
                if len({x[2] for x in xs}) > 1:
                    raise Undecided('several values')
                t = xs[0][2]
                vs = [v for v in variates(t)]
                if len(vs) != 1 or vs[0].op != 'var' or vs[0].args[1] != 'beta':
                    raise Undecided('proposal')
                v = vs[0]
                rows = []
                for _ in range(6):
                    d = [rr.uniform(.05, .95) for _ in range(self.dim)]
                    val = lambda q: [num(u) for u in components(pt.with_({v: Arr((self.dim,), list(q))}).ev(t))]     # noqa: E731
                    z = pt.with_({s: Arr((self.dim,), d) for s in tree.vars[v.args[0]] if s.op == 'var'})
                    x = val(d)
                    w = sum(density(z, v, u) for u in d) - math.log(jacobian(val, d))
                    a = sum(y_prob(z, y[0]) for y in xs)
                    rows.append((x, w + math.log(a) if a > 0 else -math.inf, self.law(pt.vals)(dr, x)))
                res['obligations'] += len(rows)
                rows = [z for z in rows if max(z[1], z[2]) > -25]
                fin = sorted(z[1] - z[2] for z in rows if z[1] > -math.inf)
                if not fin:
                    if len(rows) > 3:
                        bad.append('given the index %s, no proposal is accepted' % (dr and show(dr[0][0], 2)))
                    continue
                c = fin[len(fin) // 2]
                odd = [z for z in rows if not abs(z[1] - z[2] - c) < 1e-4]
                if odd:
                    x, y, w = odd[0]
                    bad.append('given the index %s, the density of the accepted proposals at %s is %.5g, relative to the median point, and the documented density is %.5g'
                               % (dr and show(dr[0][0], 2), [round(u, 3) for u in x], math.exp(y - c), math.exp(w)))
        return bad, notes


def y_prob(z, path):
    """probability of a path given the indices drawn"""
    return z.prob([x for x in path if x[4].op != 'weight'])[0]


def jacobi_cases():
    from checks import c24
    J = 'multivariate_jacobi_ope.MultivariateJacobiOPE'
    for n, d in ((3, 1), (2, 2), (3, 2), (5, 2)):
        def hk(ev, t, n=n, d=d):
            if t.op == 'call' and t.args[0] == 'chain':
                return tuple(c24.ordering(n, d))
            return NotImplemented

        def target(v, n=n, d=d):
            def g(dr, x):
                k = c24.ordering(n, d)[dr[0][0].args[0]]
                s = 0.0
                for j in range(d):
                    a, b = v['jacobi_params'].data[2 * j:2 * j + 2]
                    y = num(pit.jacobi_poly(k[j], a, b, x[j]))
                    s += 2 * math.log(abs(y) or 1e-300) + a * math.log(1 - x[j]) + b * math.log(1 + x[j])
                return s
            return g
        c = VectorCase('jacobi_%d_%d' % (n, d), obj(J, dict(N='c:%d' % n, jacobi_params='arr:%d,2' % d), ('sample_chain_rule_proposal', dict(nb_trials_max='c:2', random_state='rng'))),
                       lambda r, n=n, d=d: dict(N=n, jacobi_params=c24.jparams(r, d)), at=J + '.sample_chain_rule_proposal', law=target, hook=hk)
        c.dim = d
        CASES.append(c)
        if n <= 3:
            c = OPECase('ope_%d_%d' % (n, d), obj(J, dict(N='c:%d' % n, jacobi_params='arr:%d,2' % d), ('sample', dict(nb_trials_max='c:2', random_state='rng', tridiag_1D='c:False'))),
                        lambda r, n=n, d=d: dict(N=n, jacobi_params=c24.jparams(r, d), dims=dict(d=d)), at=J + '.sample', law=True, hook=hk, intercept=one_point)
            c.dim = d
            CASES.append(c)


class OPECase(Case):
    """the chain rule: the points proposed at first are accepted with probability det K(x_i, x_j) / prod K(x_i, x_i)"""
    def compare(self, tree, n, res):
        from checks import c24
        rr = random.Random(3)
        bad, notes, tried = [], [], 0
        for _ in range(2 * n):
            pt = self.point(rr)
            m, least = tree.minimal(pt)
            for path, st, t, dr in least:
                vs = [k for k in sorted(tree.vars) if any(s.op == 'var' for s in tree.vars[k]) and k <= m]
                xs = [[rr.uniform(-.9, .9) for _ in range(self.dim)] for _ in vs]
                z = pt.with_({s: Arr((self.dim,), x) for k, x in zip(vs, xs) for s in tree.vars[k]})
                X = Arr((len(xs), self.dim), [u for x in xs for u in x])
                K = c24.kernel(dict(pt.vals, X=X))
                want = abs(pit.F['det'](K))
                for i in range(len(xs)):
                    want /= K.data[i * len(xs) + i]
                a = z.prob(path)[0]
                tried += 1
                res['obligations'] += 1
                if abs(a - want) > 1e-6 * max(want, 1e-2):
                    bad.append('the points %s, proposed in this order, are accepted with probability %.5g instead of det K / prod K_ii = %.5g' % ([[round(u, 3) for u in x] for x in xs], a, want))
                v = [num(u) for u in components(z.ev(t))]
                if not same(Arr((len(v),), v), Arr((len(v),), X.data[:len(v)]), 1e-9) or len(v) != len(X.data):
                    bad.append('the points accepted are %s, the call returns %s' % ([round(u, 3) for u in X.data], [round(u, 3) for u in v]))
        return bad, notes if tried else ['no path']


def one_point(p, f, pos, kw, st, n):
    if f.qual.endswith('.sample_chain_rule_proposal'):
        s = push(st, n, T('unif'))
        return [(s, p.newarr(s, n, T('var', depth(s, 'unif'), 'point', T('dim', 'd')), frozenset(), typ='float'))]
    return None


jacobi_cases()


# ---------------------------------------------------------------- intermediate samplers

def head(p, st, v):
    o = p.the_obj(st, v)
    return p.tm(st, o.items[0]) if o is not None and o.kind == 'tuple' and o.items else p.tm(st, v)


def final_dpp(p, f, pos, kw, st, n):
    """the sample from the intermediate set is any subset; the kernel it is drawn from is recorded"""
    q = f.qual.split('.')[-1]
    if f.qual.endswith('FiniteDPP.sample_exact'):
        o = p.the_obj(st, pos[0])
        a = [o.attrs.get(k) for k in ('L_eig_vals', 'eig_vecs', 'L')] if o is not None else [None]
        s = push(st, n, T('env', 'final', *[p.tm(st, v) if v is not None else C(None) for v in a]))
        return [(s, p.newarr(s, n, T('param', 'subset'), frozenset(), typ='int'))]
    if q == 'estimate_rls_from_weighted_dict_eigendecomp':
        x = pos[0] if pos else kw['X_to_estimate']
        return [(st, p.newarr(st, n, T('call', 'user:rls', p.tm(st, x)), frozenset(), typ='float'))]
    return None


class LoopCase(Case):
    """intermediate sampling of the 'vfx' and 'alpha' samplers"""
    N, D = 3, 3
    walking = False

    def point(self, r):
        from .formula import bind
        n, d = self.N, self.D
        X = Arr((n, d), [r.gauss(0, 1) for _ in range(n * d)])
        lev = [r.uniform(.2, 1.0) for _ in range(n)]
        v = dict(X_data=X, l=lev, q=r.uniform(1.5, 3.0), r=r.uniform(1.5, 3.0), alpha=r.uniform(.2, .9), subset=Arr((1,), [0]), bound=[x * r.uniform(1.1, 2) for x in lev],
                 valid=[self.drop or r.random() < .4 for _ in range(n)])
        for i in range(n):
            if v['valid'][i]:
                v['bound'][i] = lev[i]
        env, _ = bind(dict(X_data=X, subset=v['subset'], dims=dict(N=n, D=d)))
        q = pit.F['dot'](X, pit.F['transpose'](X)).data
        v['L'] = q
        eig = [r.uniform(.1, .5) if self.walking else 40 * r.uniform(.1, 2) for _ in range(2)]
        top = 6.0 + 3 * sum(lev) if not self.walking else 3.0 if self.kind == 'vfx' else 0.5
        for k, x in dict(alpha_star=v['alpha'], alpha_hat=v['alpha'], logdet_I_A=top, q=v['q'], s=sum(lev), z=r.uniform(0, 1), r=v['r'], rls_estimate=Arr((n,), lev), eigvals_L_hat=Arr((4,), eig * 2),
                         rls_upper_bound=Arr((n,), v['bound']), rls_upper_bound_valid=Arr((n,), v['valid'])).items():
            env[T('attr', INFO, k)] = x

        def rls(Y):
            ys, xs = [list(y.data) for y in pit.rows(Y)], [list(x.data) for x in pit.rows(X)]
            return Arr((len(ys),), [lev[xs.index(y)] for y in ys])
        env['user:rls'] = rls

        def kernel(x, y=None, **k):
            return pit.F['dot'](x, pit.F['transpose'](x if y is None else y))
        env['user:eval_L'] = kernel
        pt = RPoint(env)
        pt.vals = v
        return pt

    def ltilde(self, v, counts):
        it = [i for i in range(self.N) if counts[i]]
        scale = (lambda i: counts[i] * sum(v['l']) / (v['q'] * v['l'][i])) if self.kind == 'vfx' else (lambda i: counts[i] / (v['r'] * v['l'][i]))
        m = [v['alpha'] * math.sqrt(scale(i) * scale(j)) * v['L'][i * self.N + j] for i in it for j in it]
        return it, Arr((len(it), len(it)), m)

    def assign(self, tree, pt, leaf, rr):
        """random values of the variates of a path but the last; [(variate, value)], log probability"""
        path, st, t, dr = leaf
        top = tree.depth(path)
        z, w, vs = pt, 0.0, []
        terms = sorted({s for x in path for s in subterms(x[4]) if s.op in ('var', 'U')}, key=lambda s: s.args[0])
        for v in terms:
            if v.op == 'U':
                continue
            x = draw(rr, z, v)
            a = args_of(z, v)
            if v.args[1] == 'poisson':
                lam = pit.arr(a['lam'])
                xs = pit.arr(x).data
                for y, l in zip(xs, pit.broadcast(lam, pit.arr(x).shape)):
                    w += y * math.log(l) - l - math.lgamma(y + 1)
            elif v.args[1] == 'binomial':
                sh = pit.arr(x).shape
                for y, n_, p in zip(pit.arr(x).data, pit.broadcast(pit.arr(a['n']), sh), pit.broadcast(pit.arr(a['p']), sh)):
                    p = min(max(p, 0.0), 1.0)
                    b = math.comb(int(n_), int(y)) * p ** y * (1 - p) ** (n_ - y)
                    w += math.log(b) if b > 0 else -math.inf
            elif v.args[1] == 'choice':
                kw = {q.args[0]: z.ev(q.args[1]) for q in v.args[2:] if q.op == 'kw'}
                p = list(kw['p'].data) if kw.get('p') is not None else [1.0 / self.N] * self.N
                w += sum(math.log(p[int(i)] / sum(p)) for i in x.data)
            else:
                raise Undecided('variates of %s' % v.args[1])
            z = z.with_({s: x for s in tree.vars[v.args[0]] if s.op == 'var'})
            vs.append((v, x))
        return z, w, vs

    def target(self, v, vs):
        """(counts of the items, log of the documented weight)"""
        n = self.N
        if self.kind == 'vfx':
            if [u.args[1] for u, x in vs] != ['poisson', 'choice']:
                raise Undecided('proposal')
            t, sig = vs[0][1], vs[1][1].data
            counts = [list(sig).count(i) for i in range(n)]
            w = t * math.log(v['q']) - math.lgamma(t + 1) + sum(math.log(v['l'][int(i)] / sum(v['l'])) for i in sig)
        else:
            if [u.args[1] for u, x in vs] not in (['poisson', 'binomial'], ['poisson']):
                raise Undecided('proposal')
            s = list(vs[0][1].data)
            redo = [i for i in range(n) if s[i] and not v['valid'][i]]
            counts = list(s)
            w = 0.0
            if redo:
                if len(vs) < 2 or len(vs[1][1].data) != len(redo):
                    raise Undecided('thinned items')
                for i, x in zip(redo, vs[1][1].data):
                    counts[i] = x
            elif len(vs) > 1:
                raise Undecided('nothing to be thinned')
            c = v['r'] * math.exp(1 / v['r'])
            for i in range(n):
                l = c * v['bound'][i]
                w += s[i] * math.log(l) - l - math.lgamma(s[i] + 1)
                if i in redo:
                    p = v['l'][i] / v['bound'][i]
                    w += math.log(math.comb(s[i], counts[i]) * p ** counts[i] * (1 - p) ** (s[i] - counts[i]))
            w -= sum(counts) / v['r']
        it, L = self.ltilde(v, counts)
        m = len(it)
        w += math.log(pit.F['det'](pit.F['add'](L, pit.F['eye'](m)))) if m else 0.0
        return it, L, w

    def compare(self, tree, n, res):
        rr = random.Random(3)
        bad, notes, tried = [], [], 0
        for _ in range(2 * n):
            pt = self.point(rr)
            rows = []
            for k in range(60):
                if len(rows) >= 8:
                    break
                try:
                    leaf = None
                    for cand in [x for x in tree.out if tree.depth(x[0]) <= self.vmax]:
                        z, w, vs = self.assign(tree, pt, cand, rr)
                        a = z.prob(cand[0])[0]
                        if a > 0:
                            leaf = cand
                            break
                    if leaf is None:
                        continue
                    it, L, g = self.target(pt.vals, vs)
                    if not it:
                        continue
                    rows.append((it, w + math.log(a), g))
                    fin = [x[4] for x in leaf[0] if x[4].op == 'env' and x[4].args[0] == 'final'][0]
                    if fin.args[1].op != 'const':
                        E, U = z.ev(fin.args[1]), z.ev(fin.args[2])
                        m = len(it)
                        S = pit.F['dot'](Arr(U.shape, [U.data[i * m + j] * E.data[j] for i in range(m) for j in range(m)]), pit.F['transpose'](U))
                    else:
                        S = z.ev(fin.args[3])
                    if S.shape != L.shape or max(abs(x - y) for x, y in zip(S.data, L.data)) > 1e-6 * max(1.0, max(map(abs, L.data))):
                        bad.append('given the items %s, the sample is drawn from the DPP with kernel %s instead of %s' % (it, [round(x, 4) for x in S.data[:4]], [round(x, 4) for x in L.data[:4]]))
                    val = z.ev(leaf[2])
                    val = components(val)
                    if [int(x) for x in val] != [it[0]]:
                        bad.append('the item number 0 of %s is returned as %s' % (it, val))
                except (Undecided, NotEval, ZeroDivisionError, OverflowError, IndexError, ValueError) as e:
                    notes.append('%s: %s' % (type(e).__name__, str(e)[:150]))
            res['obligations'] += len(rows)
            if len(rows) < 4:
                continue
            tried += 1
            fin = sorted(x[1] - x[2] for x in rows)
            c = fin[len(fin) // 2]
            odd = [x for x in rows if not abs(x[1] - x[2] - c) < 1e-5]
            if odd:
                bad.append('the probability of the intermediate items %s is %.5g times too large, relative to other items' % (odd[0][0], math.exp(odd[0][1] - odd[0][2] - c)))
        return bad, notes if not tried else []


IM = 'intermediate_sampling.'
for kind, name, vmax, drop in (('vfx', 'vfx_sampling_do_sampling_loop', 3, True), ('alpha', 'alpha_dpp_sampling_do_sampling_loop', 3, False), ('alpha_valid', 'alpha_dpp_sampling_do_sampling_loop', 2, True)):
    c = LoopCase(kind, fn(IM + name, X_data='arr:N,D', eval_L='fn', intermediate_sample_info='obj', rng='rng', max_iter='c:2', verbose='c:False'), None, at=IM + name, law=True, intercept=final_dpp, drop=drop, value=head)
    c.kind, c.vmax = kind[:5], vmax
    c.kind = 'vfx' if kind == 'vfx' else 'alpha'
    CASES.append(c)
