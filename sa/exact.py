"""The exact samplers of finite DPPs on small instances: how to call them, with kernels of which shape, and the law each call must have."""
import itertools
import math
from . import chains
from .chains import gauss, orth, gram, spectral, minor, subsets, normalise, ldpp, kdpp, trace_is
from .formula import fn, obj
from .pit import Arr, F

ES = 'exact_sampling.'
FD = 'finite_dpps.FiniteDPP'
EIG_MODES = ('GS', 'GS_bis', 'KuTa12')
KER_MODES = ('GS', 'Chol', 'Schur')


class Case:
    """key; task; number of items; points(r) -> (values of the parameters, law); result (of library calls); value: how to read a sample"""
    def __init__(self, key, task, N, points, result=None, at=None, columns=False, tier='quick', degenerate=None):
        self.key, self.task, self.N, self.points, self.result, self.at, self.columns, self.tier, self.degenerate = key, task, N, points, result, at, columns, tier, degenerate


CASES = []


def case(*a, **k):
    CASES.append(Case(*a, **k))


def mat(m, n):
    return 'arr:%d,%d' % (m, n)


def size_law(K, k):
    """law of k items with P(S) proportional to det K_S"""
    return ldpp(K, (k,))


def corr(r, n, lo=0.05, hi=0.95):
    return spectral(orth(r, n, n), [r.uniform(lo, hi) for _ in range(n)])


def to_L(vals):
    return [x / (1 - x) for x in vals]


# ---------------------------------------------------------------- projection kernels, function by function
def projection(name, N, rank, size, extra=None, tier='quick'):
    k = rank if size is None else size
    spec = dict(random_state='rng', size='none' if size is None else 'c:%d' % size, **(extra or {}))
    par = 'kernel' if name == 'proj_dpp_sampler_kernel' else 'K'
    spec[par] = mat(N, N)
    case('%s%s_%d_%d_%s' % (name, '_' + extra['mode'][2:].strip("'") if extra else '', N, rank, size), fn(ES + name, **spec), N,
         lambda r: (lambda K: ({par: K}, size_law(K, k)))(gram(orth(r, N, rank))), trace_is(rank), ES + name, tier=tier)


def eigenvectors(name, N, rank, size, extra=None, tier='quick'):
    k = rank if size is None else size
    spec = dict(random_state='rng', size='none' if size is None else 'c:%d' % size, eig_vecs=mat(N, rank), **(extra or {}))
    case('%s%s_%d_%d_%s' % (name, '_' + extra['mode'][2:].strip("'") if extra else '', N, rank, size), fn(ES + name, **spec), N,
         lambda r: (lambda V: ({'eig_vecs': V}, size_law(gram(V), k)))(orth(r, N, rank)), None, ES + name, tier=tier)


for N, rank, size, tier in ((3, 1, None, 'quick'), (3, 2, None, 'quick'), (4, 2, None, 'quick'), (4, 3, None, 'quick'), (4, 3, 2, 'quick'), (4, 3, 1, 'quick'), (3, 3, None, 'quick'),
                            (5, 4, None, 'quick'), (4, 4, None, 'thorough'), (5, 3, None, 'thorough'), (5, 4, 3, 'thorough'), (6, 4, None, 'thorough')):
    for f in KER_MODES:
        projection('proj_dpp_sampler_kernel_' + f, N, rank, size, tier=tier)
    for f in EIG_MODES:
        eigenvectors('proj_dpp_sampler_eig_' + f, N, rank, size, tier=tier)
for N, rank, size in ((3, 2, None), (4, 3, 2), (3, 2, 2)):
    for m in KER_MODES:
        projection('proj_dpp_sampler_kernel', N, rank, size, dict(mode="c:'%s'" % m))
    for m in EIG_MODES:
        eigenvectors('proj_dpp_sampler_eig', N, rank, size, dict(mode="c:'%s'" % m))

def hermitian(r, n, k):
    """projection kernel of rank k with complex entries, and its law"""
    cols = []
    while len(cols) < k:
        v = [complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)]
        for _ in (0, 1):
            for c in cols:
                d = sum(x * y.conjugate() for x, y in zip(v, c))
                v = [x - d * y for x, y in zip(v, c)]
        m = sum(abs(x) ** 2 for x in v) ** .5
        cols.append([x / m for x in v])
    K = Arr((n, n), [sum(c[i] * c[j].conjugate() for c in cols) if i != j else complex(sum(abs(c[i]) ** 2 for c in cols)) for i in range(n) for j in range(n)])
    return K, normalise({S: minor(K, S).real for S in subsets(n, (k,))})


for N, rank in ((3, 2), (4, 3)):
    case('proj_dpp_sampler_kernel_Chol_complex_%d_%d' % (N, rank), fn(ES + 'proj_dpp_sampler_kernel_Chol', K=mat(N, N), size='none', random_state='rng'), N,
         lambda r, N=N, rank=rank: (lambda x: ({'K': x[0]}, x[1]))(hermitian(r, N, rank)), trace_is(rank), ES + 'proj_dpp_sampler_kernel_Chol')

# ---------------------------------------------------------------- generic kernels
for N, tier in ((1, 'quick'), (2, 'quick'), (3, 'quick'), (4, 'quick'), (5, 'thorough')):
    case('generic_%d' % N, fn(ES + 'dpp_sampler_generic_kernel', K=mat(N, N), random_state='rng'), N,
         lambda r, N=N: (lambda K: ({'K': K}, kdpp(K)))(corr(r, N)), None, ES + 'dpp_sampler_generic_kernel', tier=tier)
case('generic_projection', fn(ES + 'dpp_sampler_generic_kernel', K=mat(3, 3), random_state='rng'), 3,
     lambda r: (lambda K: ({'K': K}, kdpp(K)))(gram(orth(r, 3, 2))), None, ES + 'dpp_sampler_generic_kernel')

# ---------------------------------------------------------------- selection of eigenvectors
for n, tier in ((2, 'quick'), (3, 'quick'), (4, 'thorough')):
    case('selector_%d' % n, fn(ES + 'dpp_eig_vecs_selector', ber_params='arr:%d' % n, eig_vecs=mat(4, n), random_state='rng'), n,
         lambda r, n=n: (lambda b: ({'ber_params': Arr((n,), b), 'eig_vecs': gauss(r, 4, n)},
                                    {S: math.prod(b[i] if i in S else 1 - b[i] for i in range(n)) for S in subsets(n)}))([r.uniform(0.02, 0.98) for _ in range(n)]),
         None, ES + 'dpp_eig_vecs_selector', columns=True, tier=tier)
    for k in range(1, n + 1):
        case('kselector_%d_%d' % (n, k), fn(ES + 'k_dpp_eig_vecs_selector', eig_vals='arr:%d' % n, eig_vecs=mat(4, n), size='c:%d' % k, random_state='rng'), n,
             lambda r, n=n, k=k: (lambda b: ({'eig_vals': Arr((n,), b), 'eig_vecs': gauss(r, 4, n)},
                                             normalise({S: math.prod(b[i] for i in S) for S in subsets(n, (k,))})))([r.uniform(0.1, 4) for _ in range(n)]),
             None, ES + 'k_dpp_eig_vecs_selector', columns=True, tier=tier)

# ---------------------------------------------------------------- FiniteDPP
N3 = 3


def rep_points(rep, proj, k, n=N3, full=False):
    """r -> (values, K, L) for a representation of a DPP on n items; k: rank of a projection"""
    def point(r):
        U = orth(r, n, n)
        vals = {}
        if rep in ('K', 'K_eig_dec', 'L', 'L_eig_dec') and proj:
            V = orth(r, n, k)
            ker = gram(V)
            if rep in ('K', 'L'):
                vals[rep] = ker
            else:
                vals[rep + '.vals'], vals[rep + '.vecs'] = Arr((k,), [1.0] * k), V
                if full:
                    # the whole spectrum, zeros first
                    e = [0.0] * (n - k) + [1.0] * k
                    vals[rep + '.vals'], vals[rep + '.vecs'] = Arr((n,), e), U
                    ker = spectral(U, e)
            return vals, ker if rep[0] == 'K' else Arr(ker.shape, [x / 2 for x in ker.data]), ker
        if rep in ('K', 'K_eig_dec', 'L', 'L_eig_dec'):
            e = [r.uniform(0.05, 0.95) if rep[0] == 'K' else r.uniform(0.1, 3) for _ in range(n)]
            ker = spectral(U, e)
            if rep in ('K', 'L'):
                vals[rep] = ker
            else:
                vals[rep + '.vals'], vals[rep + '.vecs'] = Arr((n,), e), U
            lam = to_L(e) if rep[0] == 'K' else e
            return vals, spectral(U, [x / (1 + x) for x in lam]), spectral(U, lam)
        if rep == 'A_zono':
            A = gauss(r, k, n)
            vals[rep] = A
            G = F['inv'](F['dot'](A, F['transpose'](A)))
            K = F['dot'](F['transpose'](A), F['dot'](G, A))
            return vals, K, K
        if rep == 'L_gram_factor':
            B = gauss(r, k, n)
            vals[rep] = B
        else:
            B = gauss(r, k, n)
            vals[rep + '.X'] = F['transpose'](B)
        L = F['dot'](F['transpose'](B), B)
        I = Arr((n, n), [float(i == j) for i in range(n) for j in range(n)])
        K = F['dot'](L, F['inv'](Arr((n, n), [x + y for x, y in zip(L.data, I.data)])))
        return vals, K, L
    return point


def dom_of(rep, proj, k, n=N3):
    if rep in ('K', 'L'):
        return mat(n, n)
    if rep in ('K_eig_dec', 'L_eig_dec'):
        return 'eig:%d,%d' % (n, k if proj else n)
    if rep in ('A_zono', 'L_gram_factor'):
        return mat(k, n)
    return 'evalX:%d,%d' % (n, k)


def finite(rep, proj, k, hist, law_of, tag, tier='quick', result=None, n=N3, full=False):
    ctor = dict(kernel_type="c:'%s'" % ('correlation' if rep[0] in 'KA' else 'likelihood'), projection='c:%r' % proj)
    ctor[rep] = dom_of(rep, proj and not full, k, n)

    def points(r):
        vals, K, L = rep_points(rep, proj, k, n, full)(r)
        return vals, law_of(K, L)
    if result is None and proj:
        result = trace_is(k)
    case('FiniteDPP_%s%s%s_%s' % (rep, '_full' if full else '', '_projection%d' % k if proj else '_%d' % k if k != n else '', tag), obj(FD, ctor, *hist), n, points, result, FD + '.' + hist[-1][0], tier=tier)


def call_of(m, mode, size=None):
    if m == 'compute':
        return [('compute_K', {}), ('compute_L', {})]
    spec = dict(mode="c:'%s'" % mode, random_state='rng')
    if size is not None:
        spec['size'] = 'c:%d' % size
    return [({'x': 'sample_exact', 'k': 'sample_exact_k_dpp'}[m], spec)]


def any_size(K, L):
    return kdpp(K)


def of_size(k):
    return lambda K, L: size_law(L, k)


def of_projection(k):
    return lambda K, L: size_law(K, k)


REPS = (('K', 3), ('K_eig_dec', 3), ('L', 3), ('L_eig_dec', 3), ('L_gram_factor', 2), ('L_gram_factor', 3), ('L_gram_factor', 4), ('L_eval_X_data', 2))
for rep, k in REPS:
    for i, mode in enumerate(EIG_MODES + ('Chol',)):
        finite(rep, False, k, call_of('x', mode), any_size, 'exact_' + mode, 'quick' if i in (0, 3) else 'thorough')
    for size in range(1, min(k, N3) + 1):
        for i, mode in enumerate(EIG_MODES):
            finite(rep, False, k, call_of('k', mode, size), of_size(size), 'k%d_%s' % (size, mode), 'quick' if i == 0 else 'thorough')
for rep, full in (('K', False), ('K_eig_dec', False), ('K_eig_dec', True), ('A_zono', False)):
    for k in (1, 2):
        for mode in ('GS', 'Chol', 'Schur') if rep == 'K' else EIG_MODES + (('Chol', 'Schur') if rep == 'K_eig_dec' else ()):
            finite(rep, True, k, call_of('x', mode), of_projection(k), 'exact_' + mode, full=full)
            if not (rep == 'K_eig_dec' and mode in ('Chol', 'Schur')):
                finite(rep, True, k, call_of('k', mode, k), of_projection(k), 'k%d_%s' % (k, mode), full=full)
for rep, full in (('L', False), ('L_eig_dec', False), ('L_eig_dec', True)):
    for size in (1, 2):
        finite(rep, True, 2, call_of('k', 'GS', size), of_projection(size), 'k%d_GS' % size, full=full)
    finite(rep, True, 2, call_of('x', 'GS'), any_size, 'exact_GS', full=full)

# histories: caches of one call must not change the law of the next
FIRST = dict(exact=[('x', 'GS')], chol=[('x', 'Chol')], k1=[('k', 'GS', 1)], k2=[('k', 'GS', 2)], k3=[('k', 'GS', 3)], compute=[('compute', None)], k1_exact=[('k', 'GS', 1), ('x', 'GS')], k2_k1=[('k', 'GS', 2), ('k', 'GS', 1)])
SECOND = dict(exact=(('x', 'GS'), any_size), chol=(('x', 'Chol'), any_size), k1=(('k', 'GS', 1), of_size(1)), k2=(('k', 'GS', 2), of_size(2)), k3=(('k', 'GS', 3), of_size(3)))
LONG = ('k1_exact', 'k2_k1')


def histories():
    """cases whose last call follows other calls on the same object"""
    global CASES
    old, CASES = CASES, []
    for rep, k in REPS:
        for f, first in FIRST.items():
            for g, (last, law_of) in SECOND.items():
                if '3' in f + g and k == 2:
                    continue
                hist = [c for h in first for c in call_of(*h)] + call_of(*last)
                finite(rep, False, k, hist, law_of, '%s_then_%s' % (f, g), 'thorough' if f in LONG or k > 3 or 'k3' in (f, g) and 'k1' not in (f, g) else 'quick')
    for rep, full in (('K', False), ('K_eig_dec', False), ('K_eig_dec', True), ('A_zono', False)):
        for f, first in (('exact', ('x', 'GS')), ('k2', ('k', 'GS', 2))) + ((('chol', ('x', 'Chol')),) if rep == 'K' else ()):
            for g, last in (('exact', ('x', 'GS')), ('k2', ('k', 'GS', 2))) + ((('chol', ('x', 'Chol')), ('schur', ('x', 'Schur'))) if rep != 'A_zono' else ()):
                finite(rep, True, 2, call_of(*first) + call_of(*last), of_projection(2), '%s_then_%s' % (f, g), full=full)
    for rep, full in (('L', False), ('L_eig_dec', False), ('L_eig_dec', True)):
        for f in ('exact', 'k1', 'k2'):
            for g in ('exact', 'k1', 'k2'):
                last, law_of = SECOND[g]
                finite(rep, True, 2, [c for h in FIRST[f] for c in call_of(*h)] + call_of(*last), law_of, '%s_then_%s' % (f, g), full=full)
    new, CASES = CASES, old
    return new
