"""Coherence of the Markov chains on subsets.  The chains are analysed over several iterations from every state of a small ground set, with symbolic kernel entries: discrete variates
are enumerated, uniform variates stay symbolic, every path yields the states recorded in the chain and closed terms for the conditions of the path.  So the joint law of the recorded
states is available as a function of the kernel.  If the current state, its determinant and its size are replaced together, on acceptance only, and recorded states are never modified
afterwards, then this law is the product of the one-step laws, which are extracted in the same way from each state; a stale determinant or size, an aliased state or a wrong record
breaks one of these identities.  They are decided by random interpretation (random positive definite kernels).  With a time limit, every path lists the outcomes of its tests of the clock;
the chain must stop at the first test that finds the limit exceeded, and the law of the states visited so far must be the same as without a limit.  For the zonotope chain, the solver of
linear programs is replaced by all possible outcomes, and the law of the chain given these outcomes is compared with the documented acceptance rule."""
import itertools
import random
from sa import chains, law, pit
from sa.chains import Tree, chain_task, subsets, minor, psd, point, close, differ, show_set, FUN, MC, report
from sa.domain import path_of
from sa.engine import const
from sa.formula import obj, fn
from sa.law import Undecided, BadProb
from sa.pit import NotEval, Arr, F
from sa.terms import T, Term, subterms

TITLE = 'chain coherence'
LEVEL = 'other'
RULE = 'law of the recorded states = product of the one-step laws; initial state first; nb_iter states, or the states visited until the time limit'
MAX_STATES = dict(quick=80, thorough=80)
DEPTHS = dict(quick=((2, 4), (3, 3)), thorough=((2, 5), (3, 4), (4, 3)))


def tasks(tier):
    for N, it in DEPTHS[tier]:
        for mode in ('AED', 'AD', 'E'):
            for S in subsets(N):
                if mode == 'E' and not S:
                    continue
                if N == 4 and (len(S) not in (1, 2) or S[0]) or N == 3 and it == 4 and S[0:1] == (2,):
                    continue
                yield ('chain', 'fn', mode, N, S, it, 'none')
                if N == 2 or len(S) == 2 and S[0] == 0 and N == 3 and it == 3:
                    yield ('chain', 'fn', mode, N, S, 3, 'float')
                    yield ('chain', 'L', mode, N, S, 3, 'none')
                if N == 2:
                    for k in (1, 2):
                        yield ('chain', 'fn', mode, N, S, k, 'none')
    for r, N in ((1, 2), (2, 3)):
        for T_max in ('none', 'float'):
            for route in ('fn', 'obj'):
                yield ('zono', route, 'zonotope', N, r, 3 if r == 2 else 4, T_max)


# ---------------------------------------------------------------- the clock
def readings(t):
    return {s for s in subterms(t) if s.op == 'site' and s.args[0] == 'clock'}


def clock_tests(path):
    """[(condition, outcome)] of the tests of the clock on a path"""
    return [(x[4], x[2]) for x in path if len(x) > 4 and isinstance(x[4], Term) and law.clock(x[4])]


def sense(t, start):
    """outcome of a test of the clock when the limit is exceeded; None if unknown, 'bad' if the test does not depend on that"""
    c = readings(t)
    if len(c) != 2 or len(c & start) != 1:
        return None
    out = []
    for dt in (3.0, 7.0):
        env = {x: 100.0 + (0.0 if x in start else dt) for x in c}
        for s in subterms(t):
            if s.op == 'param' and str(s.args[0]).split('.')[-1] == 'T_max':
                env[s] = 5.0
        try:
            out.append(bool(pit.Ev(env)(t)))
        except NotEval:
            return None
    return out[1] if out[0] != out[1] else 'bad'


# ---------------------------------------------------------------- laws
def sets(c):
    return tuple(tuple(sorted(s)) if isinstance(s, tuple) else s for s in c)


class OneStep:
    """one-step laws, from every state"""
    def __init__(self, r, route, mode, N):
        self.r, self.route, self.mode, self.N, self.trees = r, route, mode, N, {}

    def law(self, pt, S):
        if S not in self.trees:
            self.trees[S] = Tree(self.r, chain_task(self.route, self.mode, self.N, S, 2))
        d, e = self.trees[S].law(pt, lambda pt, st, v: content(self.r.p, st, v, pt))
        return {c[-1]: w for c, w in d.items()} if all(len(c) == 2 for c in d) else None


def content(p, st, v, pt):
    return sets(law.content(p, st, v, pt.ev))


def chain_of(r, route, st, v):
    """the chain recorded by a call: its value, or the last entry of the history of the object"""
    if route == 'fn':
        return v
    p = r.p
    o = st.heap[r.recv_loc] if getattr(r, 'recv_loc', None) else None
    return v


def judge(r, task, res):
    if task[0] == 'zono':
        return zonotope(r, task, res)
    _, route, mode, N, S, nb_iter, T_max = task
    t = chain_task(route, mode, N, S, nb_iter, T_max)
    res['label'] = '%d iterations of %s (%s) from %s, %d items%s' % (nb_iter, mode, route, show_set(S), N, '' if T_max == 'none' else ', time limit')
    res['runs'] += 1
    at = MC + FUN[mode]
    try:
        tree = Tree(r, t, limit=20000)
        one = OneStep(r, 'fn', mode, N)
        res['paths'] += len(tree.leaves)
        rr = random.Random(11)
        bad = {}
        groups = {}
        for path, st, v in tree.leaves:
            tests = clock_tests(path)
            start = set.intersection(*[readings(x) for x, _ in tests]) if tests else set()
            if len(tests) == 1:
                start = set(sorted(start, key=lambda x: repr(x.args))[:1])
            pat = []
            for c, b in tests:
                s = sense(c, start)
                if s == 'bad':
                    bad.setdefault('clock', 'a test of the clock does not tell whether the time limit is exceeded')
                pat.append(None if s is None or s == 'bad' else b == s)
            groups.setdefault((len(pat), tuple(pat)), []).append((path, st, v))
        for _ in range(2):
            pt = point({'kernel' if route == 'fn' else 'L': psd(rr, N)})
            pt1 = pt if route == 'fn' else point({'kernel': pt.env_of('L')})
            for (_, pat), ls in sorted(groups.items(), key=repr):
                d = law.law(pt, ls, lambda pt, st, v: content(r.p, st, history(r, route, st, v), pt))
                if not d:
                    continue
                fails = sum(pt.prob(path)[0] for path, st, x in tree.exc)
                if fails > 1e-9:
                    bad.setdefault('raises', 'the chain fails with probability %.3g' % fails)
                tot = sum(d.values()) + fails
                res['obligations'] += 1 + len(d)
                if abs(tot - 1) > 1e-6:
                    if not tree.exc and None not in pat and tot < 1 + 1e-6:
                        continue        # conditions on the clock that do not partition
                    raise Undecided('probabilities sum to %.6g' % tot)
                for c, w in sorted(d.items()):
                    if len(c) == 0 or c[0] != S:
                        bad.setdefault('initial', 'the chain %s does not start with the initial state %s' % (show_chain(c), show_set(S)))
                        continue
                    if True not in pat and None not in pat and len(c) != nb_iter or len(c) > nb_iter:
                        bad.setdefault('length', 'the chain has %d states, nb_iter is %d%s' % (len(c), nb_iter, ' and the time limit is not exceeded' if pat else ''))
                        continue
                    q = 1.0
                    for a, b in zip(c, c[1:]):
                        f = one.law(pt1, a)
                        if f is None:
                            raise Undecided('one iteration does not record two states')
                        q *= f.get(b, 0.0)
                    if not close(w, q):
                        bad.setdefault('coherence', 'the chain %s is recorded with probability %.4g; the product of the probabilities of its moves is %.4g' % (show_chain(c), w, q))
    except (Undecided, NotEval, BadProb) as e:
        res['notes'].append('%s: %s' % (chains.label(t), str(e)[:200]))
        return
    for k, msg in sorted(bad.items()):
        res['findings'].append(report(r, 'chain', t, '%s:%s' % (mode, k), msg, at))


def show_chain(c):
    return ' -> '.join(show_set(x) if isinstance(x, tuple) else str(x) for x in c)


def history(r, route, st, v):
    """the chain recorded by a call: its value, or what it appended to the history of the object"""
    if route == 'fn':
        return v
    for l, o in st.heap.items():
        if o.kind == 'inst' and o.attrs and 'list_of_samples' in o.attrs:
            x = r.p.the_obj(st, o.attrs['list_of_samples'])
            if x is not None and x.items:
                return x.items[-1]
    raise Undecided('no history')


# ---------------------------------------------------------------- the zonotope chain
def bases(r, N):
    """outcomes of the extraction of a basis: all bases, and an ill-conditioned one"""
    return list(itertools.combinations(range(N), r)) + [tuple(range(r - 1)), tuple(range(r + 1))]


def solver(rank, N, tag):
    """the linear programs are replaced by their outcomes: every basis, or a set that is not one"""
    def intercept(p, f, pos, kw, st, n):
        if str(getattr(f, 'qual', '')).endswith('.extract_basis') and pos:
            y = p.tm(st, pos[0])
            out = []
            for b in bases(rank, N) if law.depth(st, 'env') else bases(rank, N)[:1]:
                s = law.push(st, n, T('env', T('ints', *b), y))
                out.append((s, p.newarr(s, n, T('ints', *b), frozenset(), typ='int')))
            return out
        return None
    return intercept


def minor_cols(A, b):
    n = A.shape[1]
    return F['det'](Arr((len(b), len(b)), [A.data[i * n + j] for i in range(len(b)) for j in b]))


def zonotope(r, task, res):
    _, route, _, N, rank, nb_iter, T_max = task
    A = 'arr:%d,%d' % (rank, N)
    args = dict(nb_iter='c:%d' % nb_iter, T_max=T_max, random_state='rng')
    if route == 'fn':
        t = fn(MC + 'zonotope_sampler', A_zono=A, **args)
    else:
        t = obj('finite_dpps.FiniteDPP', dict(kernel_type="c:'correlation'", projection='c:True', A_zono=A), ('sample_mcmc', dict(mode="c:'zonotope'", **args)))
    res['label'] = '%d iterations of zonotope (%s), %d x %d%s' % (nb_iter, route, rank, N, '' if T_max == 'none' else ', time limit')
    res['runs'] += 1
    at = MC + 'zonotope_sampler'
    bad = {}
    try:
        tree = Tree(r, t, limit=20000, intercept=solver(rank, N, at))
        res['paths'] += len(tree.leaves)
        rr = random.Random(5)
        groups = {}
        for path, st, v in tree.leaves:
            env = [x[4].args for x in reversed(path) if len(x) > 4 and isinstance(x[4], Term) and x[4].op == 'env']
            tests = clock_tests(path)
            start = set.intersection(*[readings(x) for x, _ in tests]) if tests else set()
            if len(tests) == 1:
                start = set(sorted(start, key=lambda x: repr(x.args))[:1])
            pat = []
            for c, b in tests:
                s = sense(c, start)
                if s == 'bad':
                    bad.setdefault('clock', 'a test of the clock does not tell whether the time limit is exceeded')
                pat.append(None if s is None or s == 'bad' else b == s)
            key = (tuple(tuple(c for c in b.args) for b, _ in env), tuple(pat))
            groups.setdefault(key, []).append((path, st, v, env))
        for _ in range(3):
            A0 = chains.gauss(rr, rank, N)
            pt = point({'A_zono': A0})
            for (env, pat), ls in sorted(groups.items(), key=repr):
                d = {}
                for path, st, v, e in ls:
                    w, _ = pt.prob(path)
                    if w > law.EPS:
                        c = tuple(tuple(x) for x in law.content(r.p, st, history(r, route, st, v), pt.ev))
                        d[c] = d.get(c, 0.0) + w
                        if positions(e, c):
                            bad.setdefault('position', 'the point from which an iteration moves is not the current point of the chain (%s)' % positions(e, c))
                res['obligations'] += 1
                if not env or not d:
                    continue
                tot = sum(d.values())
                cur, want = env[0], {(env[0],): 1.0}
                for b in env[1:]:
                    new = {}
                    for c, w in want.items():
                        a = 0.0 if len(b) != rank else min(1.0, abs(minor_cols(A0, b) / minor_cols(A0, c[-1])))
                        if a > 0:
                            new[c + (b,)] = new.get(c + (b,), 0.0) + w * a
                        if a < 1:
                            new[c + c[-1:]] = new.get(c + c[-1:], 0.0) + w * (1 - a)
                    want = new
                n = len(env)
                if True not in pat and None not in pat and n != nb_iter or n > nb_iter:
                    bad.setdefault('length', 'the chain makes %d iterations, nb_iter is %d' % (n, nb_iter))
                    continue
                k = differ(d, want)
                if k is not None:
                    bad.setdefault('coherence', 'given the bases %s found by the solver, the chain %s is recorded with probability %.4g; by the acceptance rule it has probability %.4g' %
                                   (', '.join(map(show_set, env)), show_chain(k), d.get(k, 0.0), want.get(k, 0.0)))
    except (Undecided, NotEval, BadProb) as e:
        res['notes'].append('%s: %s' % (chains.label(t), str(e)[:200]))
        return
    for k, msg in sorted(bad.items()):
        res['findings'].append(report(r, 'chain', t, 'zonotope:%s' % k, msg, at))


def positions(env, c):
    """iteration i moves from the current point: its target depends on the variates of that point and on one more"""
    us = [law.uses(y, law.UMEMO) for _, y in env]
    cur = us[0]
    for i in range(1, min(len(c), len(us))):
        if not us[i] > cur or len(us[i] - cur) != 1:
            return 'iteration %d' % i
        accepted = tuple(env[i][0].args) == c[i] and tuple(env[i][0].args) != c[i - 1]
        stayed = tuple(env[i][0].args) != c[i]
        if not accepted and not stayed:     # the same basis is found again: the move is accepted, its ratio is 1
            accepted = True
        if accepted:
            cur = us[i]
    return None
