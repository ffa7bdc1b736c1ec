"""The decision tree of a sampler on a small instance.

The abstract interpreter follows a call whose discrete variates are enumerated: a draw of an index forks the analysis, one state per possible value, each with a term for its probability;
a scalar uniform variate stays symbolic, and a vector of uniform variates compared with a vector of thresholds forks into the possible masks.  Kernel entries stay symbolic, too.  Each
leaf of the tree carries the conditions of its path, the probabilities of its forks, and the value returned, all as closed terms over the arguments.  At a point (random values of the
arguments) the probability of a leaf is the product of its fork probabilities and, for every scalar uniform variate, the length of the set of values for which the conditions of
the path hold.  So the law of the value returned is available as a function of the arguments, and identities between probabilities are decided by random interpretation.
"""
import itertools
import math
import random
from .terms import T, C, Term, subterms, show
from .engine import Giveup, const, unk, mkv, cval
from .domain import path_of
from . import pit, sweep
from .pit import Arr, NotEval, NumErr

UNIT = ('rand', 'random_sample', 'random', 'uniform')
EPS = 1e-13


class Undecided(Exception):
    pass


def depth(st, op):
    """number of entries of a kind on the path of a state"""
    k, x = 0, st.path
    while x is not None:
        t = x[4] if len(x) > 4 else None
        if isinstance(t, Term) and t.op == op:
            k += 1
        x = x[0]
    return k


def push(st, n, t):
    s = st.clone()
    s.path = (s.path, n, True, frozenset(), t)
    return s


def support(p, st, v):
    """the values a choice is made from"""
    t = p.tm(st, v)
    if t.op == 'const' and type(t.args[0]) is int:
        return list(range(t.args[0]))
    o = p.the_obj(st, v)
    if o is not None and o.items is not None and o.kind in ('list', 'tuple'):
        if all(cval(x)[0] for x in o.items):
            return [cval(x)[1] for x in o.items]
    c = p.closed(t)
    if c is None:
        raise Giveup('choice from an unknown set %s' % show(t, 6)[:120])
    if isinstance(c, (int, float)):
        return list(range(int(c)))
    data = list(c) if isinstance(c, (tuple, list)) else c.data
    return [int(x) if isinstance(x, float) and x == int(x) else x for x in data]


def number(p, st, v, default):
    if v is None or cval(v) == (True, None):
        return default
    if cval(v)[0]:
        return cval(v)[1]
    c = p.closed(p.tm(st, v))
    if isinstance(c, Arr) and c.shape == ():
        c = c.data[0]
    if isinstance(c, (int, float)):
        return int(c)
    raise Giveup('draw of unknown size')


def fork(p, n, st, l, name, pos, kw):
    if any(k == '**' for k in kw):
        raise Giveup('draw with unknown arguments')
    if name == 'choice':
        names = ('a', 'size', 'replace', 'p')
        a = dict(zip(names, pos), **kw)
        items = support(p, st, a['a'])
        k = number(p, st, a.get('size'), None)
        pr = a.get('p')
        if pr is not None and cval(pr) == (True, None):
            pr = None
        rep = a.get('replace')
        rep = True if rep is None else cval(rep)[1] if cval(rep)[0] else None
        if k is None:
            out = []
            for i, x in enumerate(items):
                w = C(1.0 / len(items)) if pr is None else T('call', 'prob', p.tm(st, pr), C(i), C(len(items)))
                out.append((push(st, n, T('weight', w)), const(x)))
            return out
        if rep is None:
            raise Giveup('choice: replace unknown')
        seqs = list(itertools.product(range(len(items)), repeat=k)) if rep else list(itertools.permutations(range(len(items)), k))
        if len(seqs) > 128 or not seqs:
            raise Giveup('too many outcomes')
        out = []
        for q in seqs:
            if pr is None:
                w = C(1.0 / len(seqs))
            else:
                w = T('call', 'probs' if rep else 'probs_without', p.tm(st, pr), C(len(items)), T('tuple', *[C(i) for i in q]))
            s = push(st, n, T('weight', w))
            out.append((s, p.newarr(s, n, T('ints', *[items[i] for i in q]), frozenset(), typ='int')))
        return out
    if name in ('randint', 'integers', 'random_integers'):
        a = dict(zip(('low', 'high', 'size'), pos), **kw)
        k = number(p, st, a.get('size'), None)
        lo, hi = number(p, st, a.get('low'), 0), number(p, st, a.get('high'), None)
        if hi is None:
            lo, hi = 0, lo
        if k is not None:
            if not 0 < hi - lo <= 16 or (hi - lo) ** k > 256:
                raise Giveup('too many outcomes')
            seqs = list(itertools.product(range(lo, hi), repeat=k))
            out = []
            for q in seqs:
                s = push(st, n, T('weight', C(1.0 / len(seqs))))
                out.append((s, p.newarr(s, n, T('ints', *q), frozenset(), typ='int')))
            return out
        if not 0 < hi - lo <= 16:
            raise Giveup('too many outcomes')
        return [(push(st, n, T('weight', C(1.0 / (hi - lo)))), const(x)) for x in range(lo, hi)]
    if name == 'binomial':
        a = dict(zip(('n', 'p', 'size'), pos), **kw)
        m, k = number(p, st, a.get('n'), None), number(p, st, a.get('size'), None)
        if m is None or a.get('p') is None or (m + 1) ** (k or 1) > 256:
            raise Giveup('too many outcomes')
        pt = p.tm(st, a['p'])
        out = []
        for q in itertools.product(range(m + 1), repeat=1 if k is None else k):
            w = C(1.0)
            for x in q:
                w = T('Mult', w, T('Mult', C(float(math.comb(m, x))), T('Mult', T('Pow', pt, C(x)), T('Pow', T('Sub', C(1.0), pt), C(m - x)))))
            s = push(st, n, T('weight', w))
            out.append((s, const(q[0]) if k is None else p.newarr(s, n, T('ints', *q), frozenset(), typ='int')))
        return out
    if name == 'permutation':
        items = support(p, st, pos[0])
        if len(items) > 4:
            raise Giveup('too many outcomes')
        out = []
        qs = list(itertools.permutations(items))
        for q in qs:
            s = push(st, n, T('weight', C(1.0 / len(qs))))
            out.append((s, p.newarr(s, n, T('ints', *q), frozenset(), typ='int')))
        return out
    if name in UNIT:
        size = kw.get('size')
        if name == 'uniform':
            if any(k in kw for k in ('low', 'high')) or pos:
                lo, hi = (number(p, st, pos[0] if pos else kw.get('low'), 0), number(p, st, pos[1] if len(pos) > 1 else kw.get('high'), 1))
                if (lo, hi) != (0, 1):
                    raise Giveup('uniform on another interval')
                size = pos[2] if len(pos) > 2 else size
        elif pos:
            if len(pos) > 1:
                raise Giveup('matrix of uniform variates')
            size = pos[0]
        k = number(p, st, size, None)
        s = push(st, n, T('unif'))
        u = depth(s, 'unif')
        if k is None:
            return [(s, unk(T('U', u), frozenset(), 'float'))]
        t = T('uvec', u, k)
        return [(s, p.newarr(s, n, t, frozenset(), typ='float'))]
    if name in ('binomial',) and len(pos) >= 2 and cval(pos[0]) == (True, 1) and len(pos) == 2 and not kw:
        t = p.tm(st, pos[1])
        return [(push(st, n, T('weight', t if b else T('Sub', C(1), t))), const(b)) for b in (0, 1)]
    if name in ('randn', 'normal', 'standard_normal', 'gamma', 'beta', 'exponential', 'chisquare', 'multivariate_normal'):
        return None        # stays symbolic
    raise Giveup('variates of %s are not enumerated' % name)


def cmparr(p, n, st, op, l, r):
    if l.op == 'uvec' and op in ('Lt', 'LtE'):
        u, x, less = l, r, True
    elif r.op == 'uvec' and op in ('Gt', 'GtE'):
        u, x, less = r, l, True
    elif l.op == 'uvec' and op in ('Gt', 'GtE'):
        u, x, less = l, r, False
    elif r.op == 'uvec' and op in ('Lt', 'LtE'):
        u, x, less = r, l, False
    else:
        return None
    k = u.args[1]
    if k > 5:
        raise Giveup('too many outcomes')
    y = st.path
    while y is not None:
        if len(y) > 4 and isinstance(y[4], Term) and y[4].op == 'weight' and y[4].args[0].op == 'call' and y[4].args[0].args[0] == 'bern' and y[4].args[0].args[1] is u:
            raise Giveup('vector of uniform variates compared twice')
        y = y[0]
    out = []
    for bits in itertools.product((True, False), repeat=k):
        s = push(st, n, T('weight', T('call', 'bern', u, x, T('bools', *[b == less for b in bits]))))
        out.append((s, p.newarr(s, n, T('bools', *bits), frozenset(), typ='bool')))
    return out


def summarised(p, n, st):
    raise Giveup('loop over an unknown number of items (line %s)' % getattr(n, 'lineno', '?'))


def decide(p, st, t):
    """conditions without arguments are evaluated; a condition on a uniform variate whose outcome is excluded by the earlier conditions of the path is decided"""
    if t.op in ('weight', 'env'):
        return None
    us = uses(t, UMEMO)
    if not us:
        v = p.closed(t)
        if isinstance(v, Arr):
            v = v.data[0] if len(v.data) == 1 else None
        return bool(v) if isinstance(v, (bool, int, float)) else None
    if len(us) > 1:
        return None
    pt = Point({})
    cs, x = [], st.path
    while x is not None:
        c = x[4] if len(x) > 4 else None
        if isinstance(c, Term) and c.op not in ('weight', 'unif') and uses(c, UMEMO) == us and not params(c):
            cs.append((c, x[2]))
        x = x[0]
    if params(t):
        return None
    u = T('U', next(iter(us)))
    try:
        a, b = pt.measure(u, cs + [(t, True)]), pt.measure(u, cs + [(t, False)])
    except (Undecided, NotEval):
        return None
    if a < EPS <= b:
        return False
    if b < EPS <= a:
        return True
    return None


PMEMO = {}


def params(t):
    if t not in PMEMO:
        PMEMO[t] = any(s.op in ('param', 'site', 'dim', 'draw') for s in subterms(t))
    return PMEMO[t]


# ---------------------------------------------------------------- the tree
def leaves(r, task, limit=6000, intercept=None, result=None, sample=None, generic=None, draws=None):
    """[(path, term of the value, state)] of a task, and the exceptional exits; None if the tree could not be built"""
    p = r.p
    old = p.max_states, r.merge, r.keep, r.d.cap
    p.hooks['fork_'], p.hooks['cmparr_'], p.hooks['summarised'] = draws or fork, cmparr, summarised
    p.hooks['decide'] = decide
    if generic:         # conditions on the arguments are decided as at a generic point
        def decide_at(p, st, t):
            v = decide(p, st, t)
            if v is None and t.op not in ('weight', 'env') and not uses(t, UMEMO):
                v = generic(t)
                if isinstance(v, Arr):
                    v = v.data[0] if len(v.data) == 1 else None
                v = bool(v) if isinstance(v, (bool, int, float)) else None
            return v
        p.hooks['decide'] = decide_at
    if result:
        p.hooks['result_'] = result
    if sample:      # value of a mask at a point: its shape does not depend on the point
        p.hooks['sample_'] = sample
    if intercept:
        p.hooks['intercept'] = intercept
    p.max_states, r.merge, r.keep = limit, limit, True
    r.d.cap = 100
    r.cache.clear()
    r.envs.clear()
    try:
        runs = r.run(task)
    finally:
        for k in ('fork_', 'cmparr_', 'summarised', 'intercept', 'decide', 'result_', 'sample_'):
            p.hooks.pop(k, None)
        p.max_states, r.merge, r.keep, r.d.cap = old
        r.cache.clear()
        r.envs.clear()
    if not runs:
        raise Undecided('entry not found')
    out, exc = [], []
    for run in runs:
        if run.fail:
            raise Undecided(str(run.fail))
        out += [(path_of(st), st, v) for st, v in run.rets]
        exc += [(path_of(x[0]), x[0], x[1]) for x in run.raises]
    return out, exc


def uses(t, memo):
    """the uniform variates of a term"""
    if t not in memo:
        memo[t] = frozenset(s.args[0] for s in subterms(t) if s.op == 'U')
    return memo[t]


def clock(t):
    return any(s.op == 'site' and s.args[0] == 'clock' for s in subterms(t))


UMEMO, CMEMO = {}, {}


class Ev(pit.Ev):
    """evaluation with the rules of numpy for division by zero and the like"""
    def __call__(self, t):
        old, pit.IEEE[0] = pit.IEEE[0], True
        try:
            return pit.Ev.__call__(self, t)
        finally:
            pit.IEEE[0] = old


class BadProb(Exception):
    """the call fails, or draws from no distribution, at a point"""


class NoisyEv(Ev):
    """every result of floating point arithmetic is off by a small relative error, so that a difference is exactly zero only if it is by construction"""
    NOISE = 1e-10

    def __init__(self, env, draws, hook, seed=0):
        Ev.__init__(self, env, draws, hook)
        self.rnd = random.Random(seed)

    def ev(self, t):
        v = Ev.ev(self, t)
        if t.op in ('call', 'Add', 'Sub', 'Mult', 'Div', 'Pow', 'MatMult', 'USub') and not (t.op == 'call' and str(t.args[0]).split('.')[-1] in EXACT):
            v = self.shake(v)
            if t.op == 'call' and str(t.args[0]).split('.')[-1] == 'det' and v == 0:
                # a determinant that vanishes by cancellation may come out positive
                A = Ev.ev(self, t.args[1])
                if isinstance(A, Arr) and len(A.shape) == 2 and A.shape[0] > 1:
                    v = 1e-17
                    for i in range(A.shape[0]):
                        v *= max(abs(x) for x in A.data[i * A.shape[1]:(i + 1) * A.shape[1]])
        return v

    def shake(self, v):
        if isinstance(v, Arr):
            return Arr(v.shape, [self.shake(x) for x in v.data])
        if isinstance(v, tuple):
            return tuple(self.shake(x) for x in v)
        return v * (1 + self.NOISE * self.rnd.uniform(-1, 1)) if isinstance(v, (float, complex)) and v == v and not (isinstance(v, float) and (abs(v) > 1e15 or v == int(v))) else v


EXACT = {'copy', 'array', 'asarray', 'transpose', 'conj', 'real', 'imag', 'abs', 'absolute', 'sort', 'argsort', 'diag', 'diagonal', 'reshape', 'ravel', 'maximum', 'minimum', 'max', 'min', 'amax', 'amin',
         'where', 'concatenate', 'vstack', 'hstack', 'stack', 'delete', 'take', 'compress', 'fabs', 'triu', 'tril', 'zeros', 'ones', 'eye', 'full', 'zeros_like', 'arange', 'flatten', 'astype', 'ix_'}


class Point:
    """evaluation of leaves at one point"""
    eps, strict = EPS, True

    def __init__(self, env, hook=None):
        self.env, self.hook = env, hook
        self.ev = Ev(env, None, hook)

    def env_of(self, name):
        return self.env[T('param', name)]

    def free(self, t):
        """the uniform variates of a term that have no value at this point"""
        return uses(t, UMEMO)

    def truth(self, ev, t):
        v = ev(t)
        if isinstance(v, Arr):
            if len(v.data) != 1:
                raise NotEval('array condition')
            v = v.data[0]
        if isinstance(v, (tuple, list)):
            v = len(v)
        return bool(v)

    def prob(self, path):
        """(probability of the path, outcomes of the conditions on the clock)"""
        w, conds, ticks, undecided = 1.0, {}, [], None
        for x in reversed(path):        # in the order of execution
            t, b = (x[4], x[2]) if len(x) > 4 else (None, None)
            if t is None:
                undecided = undecided or 'condition without a term'
                continue
            if t.op in ('unif', 'env'):
                continue
            try:
                if t.op == 'weight':
                    w *= self.weight(t.args[0])
                elif self.isclock(t):
                    ticks.append(b)
                else:
                    us = self.free(t)
                    if not us:
                        if self.truth(self.ev, t) != b:
                            return 0.0, ticks
                    elif len(us) > 1:
                        raise Undecided('condition on several variates')
                    else:
                        cs = conds.setdefault(next(iter(us)), [])
                        cs.append((t, b))
                        if self.measure(T('U', next(iter(us))), cs, True) < self.eps:
                            return 0.0, ticks
            except NumErr as e:
                if w >= self.eps and not undecided:
                    raise BadProb('evaluating %s: %s' % (show(t, 4)[:80], e))
                undecided = undecided or str(e)
            except NotEval as e:
                undecided = undecided or 'condition %s: %s' % (show(t, 4)[:80], e)
            except Undecided as e:
                undecided = undecided or str(e)
            if w < self.eps:
                return 0.0, ticks
        for u, cs in conds.items():
            try:
                w *= self.measure(T('U', u), cs)
            except Undecided as e:
                undecided = undecided or str(e)
        if w >= self.eps and undecided:
            raise Undecided(undecided)
        return w if w >= self.eps else 0.0, ticks[::-1]

    def isclock(self, t):
        if t not in CMEMO:
            CMEMO[t] = clock(t)
        return CMEMO[t]

    def weight(self, t):
        try:
            if t.op == 'const':
                return t.args[0]
            if t.op == 'call' and t.args[0] == 'prob':
                pr = self.ev(t.args[1])
                if not self.strict:
                    return abs(float(pr.data[t.args[2].args[0]])) / (sum(map(abs, pr.data)) or 1.0)
                if any(x != x for x in pr.data):
                    raise BadProb('the probabilities of a draw are not numbers')
                if len(pr.data) != t.args[3].args[0]:
                    raise Undecided('probabilities of another length')
                if abs(sum(pr.data) - 1) > 1e-6 or min(pr.data) < -1e-7:
                    raise BadProb('the probabilities of a draw sum to %.4g' % sum(pr.data) if abs(sum(pr.data) - 1) > 1e-6 else 'a draw has negative probabilities', t)
                return float(pr.data[t.args[2].args[0]])
            if t.op == 'call' and t.args[0] in ('probs', 'probs_without'):
                pr = list(self.ev(t.args[1]).data)
                w, tot = 1.0, sum(pr)
                for c in t.args[3].args:
                    w *= pr[c.args[0]] / tot
                    if t.args[0] == 'probs_without':
                        tot -= pr[c.args[0]]
                    if w == 0:
                        return 0.0
                return w
            if t.op == 'call' and t.args[0] == 'bern':
                n, bits = t.args[1].args[1], t.args[3].args
                x = self.ev(t.args[2])
                x = [0.0 if y != y else y for y in x.data] if isinstance(x, Arr) and len(x.data) > 1 else [x.data[0] if isinstance(x, Arr) else x] * n
                if len(x) != n:
                    raise Undecided('thresholds of another length')
                w = 1.0
                for v, b in zip(x, bits):
                    v = min(max(v, 0.0), 1.0)
                    w *= v if b else 1 - v
                return w
            v = self.ev(t)
            return float(v.data[0] if isinstance(v, Arr) else v)
        except NumErr:
            raise
        except NotEval as e:
            raise Undecided('probability %s: %s' % (show(t, 4)[:80], e))

    def measure(self, u, cs, quick=False):
        """length of the set of values of u in [0, 1] for which all conditions hold"""
        lo, hi, rest = 0.0, 1.0, []
        for t, b in cs:
            while t.op == 'not':
                t, b = t.args[0], not b
            if t.op == 'cmp' and t.args[0] in ('Lt', 'LtE', 'Gt', 'GtE') and (t.args[1] is u) != (t.args[2] is u):
                other = t.args[2] if t.args[1] is u else t.args[1]
                if not self.free(other):
                    try:
                        c = self.ev(other)
                    except NumErr:
                        raise
                    except NotEval as e:
                        raise Undecided('threshold %s: %s' % (show(other, 4)[:80], e))
                    c = c.data[0] if isinstance(c, Arr) else c
                    if isinstance(c, complex):
                        raise Undecided('complex threshold')
                    if c != c:          # comparisons with nan are false
                        if b:
                            return 0.0
                        continue
                    if ((t.args[0][0] == 'L') == (t.args[1] is u)) == b:
                        hi = min(hi, c)
                    else:
                        lo = max(lo, c)
                    continue
            rest.append((t, b))
        if not rest or quick:
            return max(0.0, hi - lo)
        return self.general(u, rest, lo, hi)

    def general(self, u, cs, lo, hi, n=64):
        if hi <= lo:
            return 0.0

        def ok(x):
            e = dict(self.env)
            e[u] = x
            ev = Ev(e, None, self.hook)
            try:
                return all(self.truth(ev, t) == b for t, b in cs)
            except NotEval as e:
                raise Undecided('condition: %s' % e)
        xs = [lo + (hi - lo) * (i + 1e-7 + (1 - 2e-7) * 0) / n if i < n else hi - 1e-9 * (hi - lo) for i in range(n + 1)]
        vs = [ok(x) for x in xs]
        tot = 0.0
        for i in range(n):
            a, b = xs[i], xs[i + 1]
            if vs[i] and vs[i + 1]:
                tot += b - a
            elif vs[i] != vs[i + 1]:
                l, h = a, b
                for _ in range(45):
                    m = (l + h) / 2
                    if ok(m) == vs[i]:
                        l = m
                    else:
                        h = m
                tot += (l - a) if vs[i] else (b - h)
        return tot


class NoisyPoint(Point):
    """which paths can be taken if arithmetic is not exact"""
    eps, strict = 1e-35, False

    def __init__(self, env, seed=0, hook=None):
        self.env, self.hook = env, hook
        self.ev = NoisyEv(env, None, hook, seed)


def law(point, tree, value):
    """{value: probability} over the leaves; value(point, st, v) -> hashable"""
    out = {}
    for path, st, v in tree:
        w, ticks = point.prob(path)
        if w > EPS:
            try:
                k = value(point, st, v)
            except NumErr as e:
                raise BadProb('evaluating the sample: %s' % e)
            except NotEval as e:
                raise Undecided('value: %s' % e)
            out[k] = out.get(k, 0.0) + w
    return out


def plain(v):
    """value of an evaluated term as nested tuples of numbers"""
    if isinstance(v, Arr):
        if len(v.shape) == 0:
            return plain(v.data[0])
        if len(v.shape) == 1:
            return tuple(plain(x) for x in v.data)
        return tuple(plain(x) for x in pit.rows(v))
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, float) and abs(v) < 1e15 and v == int(v):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    return v


def content(p, st, v, ev):
    """the value of an abstract value, item by item if it is a list"""
    o = p.the_obj(st, v)
    if o is not None and o.kind in ('list', 'tuple') and o.items is not None:
        return tuple(content(p, st, x, ev) for x in o.items)
    ok, c = cval(v)
    if ok:
        return plain(c)
    return plain(ev(p.tm(st, v)))
