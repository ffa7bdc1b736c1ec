"""Laws of chains and samplers on small instances: references, sample points and reports shared by the checks on exact laws, chain coherence and detailed balance."""
import itertools
from . import formula, law, sweep
from .engine import const
from .law import Undecided, BadProb, EPS
from .pit import Arr, F
from .formula import bind, fn, obj
from .sweep import label


# ---------------------------------------------------------------- kernels
def gauss(r, m, n):
    return Arr((m, n), [r.gauss(0, 1) for _ in range(m * n)])


def psd(r, n):
    B = gauss(r, n, n)
    s = r.choice((0.3, 1.0, 2.0))
    return Arr((n, n), [s * x for x in F['dot'](B, F['transpose'](B)).data])


def orth(r, n, k):
    """n x k matrix with orthonormal columns"""
    cols = []
    while len(cols) < k:
        v = [r.gauss(0, 1) for _ in range(n)]
        for _ in (0, 1):
            for c in cols:
                d = sum(x * y for x, y in zip(v, c))
                v = [x - d * y for x, y in zip(v, c)]
        m = sum(x * x for x in v) ** .5
        if m > 0.1:
            cols.append([x / m for x in v])
    return Arr((n, k), [cols[j][i] for i in range(n) for j in range(k)])


def gram(V):
    return F['dot'](V, F['transpose'](V))


def spectral(V, vals):
    n, k = V.shape
    W = Arr((n, k), [V.data[i * k + j] * vals[j] for i in range(n) for j in range(k)])
    return F['dot'](W, F['transpose'](V))


def minor(K, S):
    n, S = K.shape[0], list(S)
    return F['det'](Arr((len(S), len(S)), [K.data[i * n + j] for i in S for j in S])) if S else 1.0


def subsets(n, sizes=None):
    for k in range(n + 1):
        if sizes is None or k in sizes:
            yield from itertools.combinations(range(n), k)


def normalise(d):
    s = sum(d.values())
    return {k: v / s for k, v in d.items()}


def ldpp(L, sizes=None):
    """law with P(S) proportional to det L_S"""
    return normalise({S: minor(L, S) for S in subsets(L.shape[0], sizes)})


def kdpp(K):
    """law of the DPP with correlation kernel K"""
    n = K.shape[0]
    return {S: abs(F['det'](Arr((n, n), [K.data[i * n + j] - (1.0 if i == j and i not in S else 0.0) for i in range(n) for j in range(n)]))) for S in subsets(n)}


# ---------------------------------------------------------------- trees
class Tree:
    """decision tree of one call"""
    def __init__(self, r, task, **kw):
        self.p = r.p
        self.task = task
        f = kw.get('result')
        if f is not None and kw.get('sample') is not None:
            kw['result'] = lambda t: f(t, kw['sample'])
        self.leaves, self.exc = law.leaves(r, task, **kw)

    def law(self, pt, value=None):
        """({value: probability}, probability of an exception)"""
        d = law.law(pt, self.leaves, value or (lambda pt, st, v: law.content(self.p, st, v, pt.ev)))
        e = 0.0
        for path, st, x in self.exc:
            e += pt.prob(path)[0]
        return d, e


def linear(x, y=None, **k):
    """the linear kernel"""
    return F['dot'](x, F['transpose'](x if y is None else y))


def point(vals, hook=None):
    env, _ = bind(vals)
    env['user:L_eval_X_data.eval'] = env['user:eval_L'] = linear
    return law.Point(env, hook)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1e-3, abs(a), abs(b)) + 1e-10


def differ(d, ref, tol=1e-6):
    """first value with different probabilities"""
    for k in sorted(set(d) | set(ref), key=repr):
        if not close(d.get(k, 0.0), ref.get(k, 0.0), tol):
            return k
    return None


class Anchor:
    def __init__(self, task):
        self.task = task


def report(r, rule, task, detail, msg, at=None):
    """a finding at the function `at` (or at the entry of the task)"""
    p = r.p
    f = p.find_fn('dppy.' + at) if at else None
    if f is not None:
        where, fn_ = p.where(f[1].node, f[1].mod), f[1].qual
    else:
        where, fn_ = formula.anchor(p, Anchor(task))
    return sweep.finding(rule, where, fn_, detail, '%s: %s' % (label(task), msg), label(task))


def sampled(vals):
    """value of a term at a point, None if it is not evaluable"""
    pt = point(vals)

    def f(t):
        try:
            return pt.ev(t)
        except Exception:
            return None
    return f


def show_set(S):
    return '{%s}' % ', '.join(map(str, S))


# ---------------------------------------------------------------- Markov chains on subsets
MC = 'mcmc_sampling.'
FUN = dict(AED='add_exchange_delete_sampler', AD='add_delete_sampler', E='basis_exchange_sampler')


def items(S):
    return 'items:' + ','.join(map(str, S))


def chain_task(route, mode, N, S, nb_iter, T_max='none', name='kernel'):
    """the call that runs the chain from the state S"""
    args = dict(s_init=items(S), nb_iter='c:%d' % nb_iter, T_max=T_max, random_state='rng')
    A = 'arr:%d,%d' % (N, N)
    if route == 'fn':
        return fn(MC + FUN[mode], kernel=A, **args)
    if route == 'dispatch':
        return fn(MC + 'dpp_sampler_mcmc', kernel=A, mode="c:'%s'" % mode, **args)
    if route == 'L':
        return obj('finite_dpps.FiniteDPP', dict(kernel_type="c:'likelihood'", projection='c:False', L=A), ('sample_mcmc', dict(mode="c:'%s'" % mode, **args)))
    if route == 'Lk':
        return obj('finite_dpps.FiniteDPP', dict(kernel_type="c:'likelihood'", projection='c:False', L=A), ('sample_mcmc_k_dpp', dict(size='c:%d' % len(S), mode="c:'%s'" % mode, **args)))
    if route == 'K':
        return obj('finite_dpps.FiniteDPP', dict(kernel_type="c:'correlation'", projection='c:True', K=A), ('sample_mcmc', dict(mode="c:'%s'" % mode, size='c:%d' % len(S), **args)))


def trace_is(k):
    """a projection kernel of rank k: its trace, up to rounding, is k"""
    def result(t, sample=None):
        a = t.args
        if a[0] not in ('numpy.trace', 'numpy.sum') or len(a) != 2:
            return None
        if a[0] == 'numpy.trace' and a[1].op == 'param':
            return k - 1e-9
        if a[0] == 'numpy.sum' and (a[1].op == 'param' or a[1].op == 'call' and a[1].args[0] in ('numpy.diag', 'numpy.diagonal') and len(a[1].args) == 2 and a[1].args[1].op == 'param'):
            return k - 1e-9
        x = sample(t) if sample else None
        x = x.data[0] if isinstance(x, Arr) and len(x.data) == 1 else x
        return k - 1e-9 if isinstance(x, float) and abs(x - k) < 1e-6 else None
    return result


def last(c):
    """the last state of a chain, or the state"""
    return tuple(sorted(c[-1] if c and isinstance(c[-1], tuple) else c))
