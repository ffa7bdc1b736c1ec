"""Documented formulas.  Every function of the property is analysed once by abstract interpretation: each path through it (including the calls it makes) yields a
closed term for the value returned, over its arguments and the variates it draws, together with the conditions under which the path is taken.  The term and the
documented formula, which is stated independently in this file, are then compared by random interpretation: both are evaluated, by the checker's own arithmetic,
at random values of the arguments and of the variates for which the conditions hold; a disagreement at two points refutes the path.  Exchanging variates of the same
law and shape is not a disagreement, nor are the signs and the order that eigenvalue routines leave open.  Paths with a construct that has no interpretation
are counted as undecided and reported in the notes."""
import itertools
import math
from sa import sweep, formula
from sa.sweep import label
from sa.formula import Form, fn, obj, vec, mat
from sa import pit
from sa.pit import Arr, Poly

TITLE = 'documented formulas'
LEVEL = 'other'
RULE = 'the term extracted from the source on each path equals the documented formula (random interpretation)'
MAX_STATES = dict(quick=80, thorough=80)

FORMS = []


def form(key, task, points, **want):
    kw = {k: want.pop(k) for k in ('hook', 'post', 'env', 'what', 'assume', 'tol') if k in want}
    FORMS.append(Form(key, task, points, list(want.items()) if '_' not in want else want['_'], **kw))


# ------------------------------------------------------------------ random matrices
GIN = {1: 'A = Z({m}, {n})\n', 2: 'A = Z({m}, {n}) + 1j * Z({m}, {n})\n',
       4: 'X = Z({m}, {n}) + 1j * Z({m}, {n})\nY = Z({m}, {n}) + 1j * Z({m}, {n})\nA = block([[X, Y], [-conj(Y), conj(X)]])\n'}


def gin(beta, m, n, name='A'):
    s = GIN[beta].format(m=m, n=n)
    return s if name == 'A' else s.replace('A =', name + ' =').replace('X =', 'X_ =').replace('Y =', 'Y_ =').replace('[X, Y]', '[X_, Y_]').replace('-conj(Y)', '-conj(Y_)').replace('conj(X)', 'conj(X_)')


def N(r):
    return r.choice((2, 3, 4))


for b in (1, 2, 4):
    half = '[::2]' if b == 4 else ''
    form('hermite_full_%d' % b, fn('random_matrices.hermite_sampler_full', N='int', beta='c:%d' % b, random_state='rng'), lambda r: dict(N=N(r)),
         _=[('return', gin(b, 'N', 'N') + '(eigvalsh(A + conj(A).T) / sqrt(2))' + half)])
    form('laguerre_full_%d' % b, fn('random_matrices.laguerre_sampler_full', M='int', N='int', beta='c:%d' % b, random_state='rng'), lambda r: dict(N=r.choice((2, 3)), M=r.choice((3, 4))),
         _=[('return', gin(b, 'N', 'M') + 'eigvalsh(A @ conj(A).T)' + half)])
    form('jacobi_full_%d' % b, fn('random_matrices.jacobi_sampler_full', M_1='int', M_2='int', N='int', beta='c:%d' % b, random_state='rng'), lambda r: dict(N=2, M_1=r.choice((2, 3)), M_2=4),
         _=[('return', gin(b, 'N', 'M_1', 'G1') + gin(b, 'N', 'M_2', 'G2') + 'W = G1 @ conj(G1).T\neigvals(W @ inv(W + G2 @ conj(G2).T))' + half)])
    form('circular_hermite_%d' % b, fn('random_matrices.circular_sampler_full', N='int', beta='c:%d' % b, haar_mode="c:'Hermite'", random_state='rng'), lambda r: dict(N=N(r)),
         _=[('return', gin(b, 'N', 'N') + 'eigvals(eigh(A + conj(A).T)[1])')]) if b != 4 else None
    form('circular_qr_%d' % b, fn('random_matrices.circular_sampler_full', N='int', beta='c:%d' % b, haar_mode="c:'QR'", random_state='rng'), lambda r: dict(N=N(r)),
         _=[('return', gin(b, 'N', 'N') + 'Q, R = qr(A)\nd = diagonal(R)\neigvals(Q * (d / abs(d)))')]) if b != 4 else None
form('ginibre', fn('random_matrices.ginibre_sampler_full', N='int', random_state='rng'), lambda r: dict(N=N(r)), _=[('return', gin(2, 'N', 'N') + 'eigvals(A) / sqrt(2)')])
TRI_N = 'a = loc + scale * Z(size)\nb = scale**2 * G(0.5 * beta * arange(size - 1, 0, -1))\neigvalsh(tridiag(a, sqrt(b)))'
TRI_G = '''k = arange(size - 1, -1, -1)
xo = scale * G(0.5 * beta * k + shape)
xe = zeros(size)
xe[1:] = scale * G(0.5 * beta * k[:-1])
eigvalsh(tridiag(xe + xo, sqrt(xo[:-1] * xe[1:])))'''
TRI_B = '''k = arange(size - 1, -1, -1)
co = B(0.5 * beta * k + a, 0.5 * beta * k + b)
ce = zeros(size)
ce[1:] = B(0.5 * beta * k[:-1], 0.5 * beta * k[1:] + a + b)
xo = (1 - ce) * co
xe = zeros(size)
xe[1:] = (1 - co[:-1]) * ce[1:]
eigvalsh(tridiag(xe + xo, sqrt(xo[:-1] * xe[1:])))'''
form('normal_tridiag', fn('random_matrices.mu_ref_normal_sampler_tridiag', loc='float', scale='float', beta='float', size='int', random_state='rng'),
     lambda r: dict(loc=r.uniform(-2, 2), scale=r.uniform(.3, 2), beta=r.uniform(.3, 5), size=r.choice((2, 3, 4, 5))), _=[('return', TRI_N)])
form('gamma_tridiag', fn('random_matrices.mu_ref_gamma_sampler_tridiag', shape='float', scale='float', beta='float', size='int', random_state='rng'),
     lambda r: dict(shape=r.uniform(.2, 2), scale=r.uniform(.3, 2), beta=r.uniform(.3, 5), size=r.choice((2, 3, 4, 5))), _=[('return', TRI_G)])
form('beta_tridiag', fn('random_matrices.mu_ref_beta_sampler_tridiag', a='float', b='float', beta='float', size='int', random_state='rng'),
     lambda r: dict(a=r.uniform(.2, 2), b=r.uniform(.3, 2), beta=r.uniform(.3, 5), size=r.choice((2, 3, 4, 5))), _=[('return', TRI_B)])


def quindiag(n, b):
    """product of the two block diagonal matrices built on the Verblunsky coefficients (Killip and Nenciu)"""
    s = ''
    for i in range(n):
        s += 'g%d = Z(%d)\na%d = (g%d[0] + 1j * g%d[1]) / norm(g%d)\n' % (i, 2 + b * (n - 1 - i), i, i, i, i)
    for i in range(n - 1):
        s += 'x%d = block([[conj(a%d), sqrt(1 - abs(a%d)**2)], [sqrt(1 - abs(a%d)**2), -a%d]])\n' % (i, i, i, i, i)
    end = 'conj(a%d)' % (n - 1)
    L, M = ['x%d' % i for i in range(0, n - 1, 2)], ['1'] + ['x%d' % i for i in range(1, n - 1, 2)]
    (M if n % 2 == 0 else L).append(end)
    return s + 'eigvals(block_diag([%s]) @ block_diag([%s]))' % (', '.join(L), ', '.join(M))


for n in (2, 3, 4, 5):
    for b in (1, 2, 3):
        form('quindiag_%d_%d' % (n, b), fn('random_matrices.mu_ref_unif_unit_circle_sampler_quindiag', beta='c:%d' % b, size='c:%d' % n, random_state='rng'), lambda r: {}, _=[('return', quindiag(n, b))])
form('semi_circle', fn('random_matrices.semi_circle_law', x='arr:n', R='float'), lambda r: dict(x=vec(r, 6, -4, 4), R=r.uniform(.5, 4), dims=dict(n=6)),
     _=[('return', '2 / (pi * R**2) * sqrt(maximum(R**2 - x**2, 0))')])
form('marcenko_pastur', fn('random_matrices.marcenko_pastur_law', x='arr:n', M='int', N='int', sigma='float'),
     lambda r: dict(x=vec(r, 6, .1, 6), M=r.choice((4, 5, 9)), N=r.choice((1, 2, 3, 4)), sigma=r.uniform(.5, 2), dims=dict(n=6)),
     _=[('return', 'c = N / M\nlm = sigma**2 * (1 - sqrt(c))**2\nlp = sigma**2 * (1 + sqrt(c))**2\nsqrt(maximum((lp - x) * (x - lm), 0)) / (2 * pi * sigma**2 * c * x)')])
form('wachter', fn('random_matrices.wachter_law', x='arr:n', M_1='int', M_2='int', N='int'), lambda r: dict(x=vec(r, 6, .05, .95), M_1=r.choice((4, 5, 9)), M_2=r.choice((5, 8)), N=r.choice((2, 3, 4)), dims=dict(n=6)),
     _=[('return', 'a = M_1 / N\nb = M_2 / N\ns = sqrt(a * (a + b - 1))\nlm = ((s - sqrt(b)) / (a + b))**2\nlp = ((s + sqrt(b)) / (a + b))**2\n(a + b) / (2 * pi) * sqrt(maximum((lp - x) * (x - lm), 0)) / (x * (1 - x))')])

# ------------------------------------------------------------------ polynomial potentials
def pol(r, deg, lo=.2, hi=2):
    return Poly([r.uniform(lo, hi) for _ in range(deg + 1)])


def tri_power_traces(a, b, N, V):
    """tr V(J) for the Jacobi matrix with diagonal a_1..a_N and squared off-diagonal b_1..b_{N-1}"""
    J = pit.tridiag(pit.getidx(a, slice(1, N + 1)), pit.ELEM['sqrt'](pit.getidx(b, slice(1, N))))
    q, s = pit.eye(N), 0.0
    for k, c in enumerate(V.up()):
        if k:
            q = pit.dot(q, J)
        s = pit.add(s, pit.mul(c, sum(pit.diag(q).data)))
    return s


def conditional(which):
    def spec(v):
        """the polynomial x -> tr V(J) as a function of one coefficient, without its constant term, through its values at deg+1 points"""
        N, i, V = v['N'] - 3, v['i'], v['V']
        deg = 6 if which == 'a' else 3
        xs = [float(k) for k in range(deg + 1)] if which == 'a' else [.5 * k for k in range(deg + 1)]
        ys = []
        for x in xs:
            a, b = v['a'], v['b']
            if which == 'a':
                a = pit.update(a, i, x)
            else:
                b = pit.update(b, i, x)
            ys.append(tri_power_traces(a, b, N, V))
        m = Arr((deg + 1, deg + 1), [x ** j for x in xs for j in range(deg + 1)])
        c = list(pit.solve(m, Arr((deg + 1,), ys)).data)
        return Poly([0.0 if abs(u) < 1e-7 else u for u in c[:0:-1]] + [0.0])
    return spec


def cond_points(which):
    def points(r):
        N = r.choice((2, 3, 4, 5))
        i = r.randint(1, N if which == 'a' else N - 1)
        a = Arr((N + 3,), [0.0] + [r.uniform(-1.5, 1.5) for _ in range(N)] + [0.0] * 2)
        b = Arr((N + 3,), [0.0] + [r.uniform(.2, 1.5) for _ in range(N - 1)] + [0.0] * 3)
        V = Poly([r.uniform(.2, 2) if r.random() < .7 else 0.0 for _ in range(6)] + [0.0])
        return dict(i=i, a=a, b=b, V=V, dims=dict(N=N + 3))
    return points


for w in 'ab':
    form('conditional_%s' % w, fn('beta_ensemble_polynomial_potential_core.polynomial_in_negative_log_conditional_%s_coef' % w, i='int', a='arr:N', b='arr:N', V='poly'),
         cond_points(w), _=[('return', conditional(w))], post=lambda v: Poly(v.c[:-1] + [0.0]) if isinstance(v, Poly) else v)


def integral(f, lo, hi, n=400):
    """of a function with square root singularities at the ends, by the substitution x = m - h cos(t) and the trapezium rule"""
    m, h = (lo + hi) / 2, (hi - lo) / 2
    s = 0.0
    for k in range(1, n):
        t = math.pi * k / n
        s += f(m - h * math.cos(t)) * h * math.sin(t)
    return s * math.pi / n


def quad_ab(g2, g4):
    r = math.sqrt(g2 ** 2 + 12 * g4)
    return 2 / (3 * g4) * (r - g2), (r + 2 * g2) / (3 * g4)


def mu_x2x4(g2, g4):
    """density and support of the equilibrium measure of g2 x^2/2 + g4 x^4/4"""
    if g2 > -2 * math.sqrt(g4):
        a2, b2 = quad_ab(g2, g4)
        return (lambda x: g4 / (2 * math.pi) * (x * x + b2) * math.sqrt(max(a2 - x * x, 0.0))), math.sqrt(a2)
    b2, a2 = (-g2 - 2 * math.sqrt(g4)) / g4, (-g2 + 2 * math.sqrt(g4)) / g4
    return (lambda x: g4 / (2 * math.pi) * abs(x) * math.sqrt(max((a2 - x * x) * (x * x - b2), 0.0))), math.sqrt(a2)


def mu_x2m(m, g):
    t = g / (2 * m)
    c = [1.0]
    for l in range(1, m + 1):
        c.append(c[-1] * (2 * l - 1) / (2 * l))
    a2 = (m * t * c[m]) ** (-1.0 / m)
    return (lambda x: m * t / math.pi * math.sqrt(max(a2 - x * x, 0.0)) * sum(x ** (2 * (m - 1 - j)) * a2 ** j * c[j] for j in range(m))), math.sqrt(a2)


def at(f, xs):
    return Arr((len(xs.data),), [f(x) for x in xs.data])


def cdf(mu, a):
    return lambda x: 0.0 if x <= -a else 1.0 if x >= a else integral(mu, -a, x, 2000)


BP = 'beta_ensemble_polynomial_potential_core.'
XS = dict(x='arr:n')
g24 = lambda r: dict(g_2=r.choice((1, -1, -1, 0)) * r.uniform(.1, 6), g_4=r.uniform(.3, 3), x=vec(r, 5, -3, 3), dims=dict(n=5))
form('equilibrium_x2_x4', fn(BP + 'equilibrium_x2_x4', g_2='float', g_4='float'), g24,
     _=[('return.0', lambda v: at(mu_x2x4(v['g_2'], v['g_4'])[0], v['x']), XS), ('return.1', lambda v: Arr((2,), [-mu_x2x4(v['g_2'], v['g_4'])[1], mu_x2x4(v['g_2'], v['g_4'])[1]]))])
form('cdf_x2_x4', fn(BP + 'cdf_equilibrium_x2_x4', g_2='float', g_4='float'), lambda r: dict(g24(r), g_2=r.uniform(.1, 3), x=vec(r, 3, -2, 2), dims=dict(n=3)),
     _=[('return.0', lambda v: at(cdf(*mu_x2x4(v['g_2'], v['g_4'])), v['x']), XS), ('return.1', lambda v: Arr((2,), [-mu_x2x4(v['g_2'], v['g_4'])[1], mu_x2x4(v['g_2'], v['g_4'])[1]]))], tol=1e-4)
for m in (1, 2, 3, 4):
    pts = lambda r: dict(g_2m=r.uniform(.3, 3), x=vec(r, 3, -2, 2), dims=dict(n=3))
    sup = lambda v, m=m: Arr((2,), [-mu_x2m(m, v['g_2m'])[1], mu_x2m(m, v['g_2m'])[1]])
    form('equilibrium_x2m_%d' % m, fn(BP + 'equilibrium_x2m', m='c:%d' % m, g_2m='float'), pts,
         _=[('return.0', lambda v, m=m: at(mu_x2m(m, v['g_2m'])[0], v['x']), XS), ('return.1', sup)])
    if m in (2, 3):
        form('cdf_x2m_%d' % m, fn(BP + 'cdf_equilibrium_x2m', m='c:%d' % m, g_2m='float'), pts,
             _=[('return.0', lambda v, m=m: at(cdf(*mu_x2m(m, v['g_2m'])), v['x']), XS), ('return.1', sup)], tol=1e-4)
form('equilibrium_ClItKr10', fn(BP + 'equilibrium_ClItKr10'), lambda r: dict(x=vec(r, 6, -3, 3), dims=dict(n=6)),
     _=[('return.0', '1 / (10 * pi) * sqrt(maximum((x + 2) * (2 - x)**5, 0))', XS), ('return.1', lambda v: Arr((2,), [-2.0, 2.0]))])
convex = lambda r: Poly([r.uniform(.2, 2), 0.0, r.uniform(.1, 2), r.uniform(-2, 2), 0.0])
form('shift_pol', fn(BP + 'shift_pol', P='poly', x0='float'), lambda r: dict(P=pol(r, r.choice((2, 3, 4)), -2), x0=r.uniform(-2, 2)), _=[('return', lambda v: v['P'](Poly([1.0, -v['x0']])))])
form('log_pdf_quartic', fn(BP + 'log_pdf_convex_quartic', x='float', P='poly'), lambda r: dict(P=convex(r), x=r.uniform(-2, 2)), _=[('return', lambda v: -v['P'](v['x']))])
form('log_pdf_gamma', fn(BP + 'log_pdf_convex_gen_gamma', x='float', shape='float', P='poly'), lambda r: dict(P=convex(r), x=r.uniform(.1, 2), shape=r.uniform(1, 3)),
     _=[('return', lambda v: (v['shape'] - 1) * math.log(v['x']) - v['P'](v['x']))])


def is_mode(v, x, shape):
    d = pit.pderiv(v['P'])(x) - ((shape - 1) / x if shape is not None else 0.0)
    return abs(d) < 1e-5


def realroots(p, pos=False):
    return sorted(x for x in pit.proots(p).data if not isinstance(x, complex) and (not pos or x > 0))


form('mode_quartic', fn(BP + 'find_mode_convex_quartic', P='poly'), lambda r: dict(P=convex(r)), _=[('return', lambda v: realroots(pit.pderiv(v['P']))[0])])
form('ab_quartic', fn(BP + 'find_b_a_convex_quartic', P='poly', mode='float'), lambda r: (lambda P: dict(P=P, mode=realroots(pit.pderiv(P))[0]))(convex(r)),
     _=[('return', lambda v: (lambda q: Arr((len(q),), q))(realroots(pit.pbin('Sub', v['P'](Poly([1.0, v['mode']])), v['P'](v['mode']) + 2 * math.log(2)))))])
form('mode_gamma', fn(BP + 'find_mode_convex_gen_gamma', shape='float', P='poly'), lambda r: dict(P=convex(r), shape=r.uniform(1.1, 4)),
     _=[('return', lambda v: realroots(pit.pbin('Sub', pit.pbin('Mult', Poly([1.0, 0.0]), pit.pderiv(v['P'])), v['shape'] - 1), True)[0])])

# ------------------------------------------------------------------ Jacobi ensembles in several dimensions
def lnorm2(a, b, n):
    """log of the squared norm of the Jacobi polynomial of degree n for the weight (1-x)^a (1+x)^b"""
    if n == 0:
        return (a + b + 1) * math.log(2) + math.lgamma(a + 1) + math.lgamma(b + 1) - math.lgamma(a + b + 2)
    return (a + b + 1) * math.log(2) + math.lgamma(n + a + 1) + math.lgamma(n + b + 1) - math.lgamma(n + a + b + 1) - math.log(2 * n + a + b + 1) - math.lgamma(n + 1)


def lbound(a, b, n):
    """log of the bound of pi (1-x)^(a+1/2) (1+x)^(b+1/2) P_n(x)^2 / |P_n|^2 over [-1, 1]"""
    if a == b == -.5:
        return math.log(2) if n else 0.0
    if n == 0:
        m = (b - a) / (a + b + 1)
        return math.log(math.pi) + (a > -.5 and (.5 + a) * math.log(1 - m)) + (b > -.5 and (.5 + b) * math.log(1 + m)) - lnorm2(a, b, 0)
    lo, hi = min(a, b), max(a, b)
    return math.log(2) + math.lgamma(n + 1 + a + b) + math.lgamma(n + 1 + hi) - math.lgamma(n + 1) - 2 * hi * math.log(n + .5 * (a + b + 1)) - math.lgamma(n + 1 + lo)


def ordering(N, d):
    """the first N multi-indices, by increasing maximum, the ones with the same maximum in lexicographic order"""
    m = 0
    res = []
    while len(res) < N:
        res += [x for x in itertools.product(range(m + 1), repeat=d) if m in x]
        m += 1
    return res[:N]


def jparams(r, d, arcsine=None):
    k = r.choice((0, 1, 2)) if arcsine is None else arcsine
    one = lambda: -.5 if r.random() < .25 else r.uniform(-.45, .5)
    p = [[-.5, -.5] if k == 2 or k == 1 and i == 0 else [one(), one()] for i in range(d)]
    return Arr((d, 2), [x for q in p for x in q])


def jpoly(v, X):
    """matrix of the orthonormal multivariate polynomials"""
    n, d = X.shape
    jp = v['jacobi_params'].data
    res = []
    for i in range(n):
        for k in ordering(v['N'], d):
            q = 1.0
            for j in range(d):
                a, b = jp[2 * j], jp[2 * j + 1]
                q *= pit.jacobi_poly(k[j], a, b, X.data[i * d + j]) / math.exp(.5 * lnorm2(a, b, k[j]))
            res.append(q)
    return Arr((n, v['N']), res)


def kernel(v, pointwise=False, Y=None):
    X = v['X']
    A = jpoly(v, X)
    B = jpoly(v, v['Y']) if Y else A
    K = pit.dot(A, pit.transpose(B))
    return K if not pointwise else Arr((X.shape[0],), [K.data[i * K.shape[1] + i] for i in range(X.shape[0])])


J = 'multivariate_jacobi_ope.'
form('norms_1D', fn(J + 'compute_norms_1D_polynomials', jacobi_params='arr:d,2', deg_max='int'), lambda r: (lambda d: dict(jacobi_params=jparams(r, d), deg_max=r.choice((0, 1, 2, 4)), dims=dict(d=d)))(r.choice((1, 2, 3))),
     _=[('return', lambda v: Arr((v['deg_max'] + 1, v['d']), [math.exp(.5 * lnorm2(v['jacobi_params'].data[2 * j], v['jacobi_params'].data[2 * j + 1], n)) for n in range(v['deg_max'] + 1) for j in range(v['d'])]))])


def bounds(v):
    jp = v['jacobi_params'].data
    return Arr((v['N'],), [math.exp(sum(lbound(jp[2 * j], jp[2 * j + 1], v['ordering'].data[i * v['d'] + j]) for j in range(v['d']))) for i in range(v['N'])])


for ls in (True, False):
    form('rejection_bounds_%s' % ls, fn(J + 'compute_rejection_bounds', jacobi_params='arr:d,2', ordering='iarr:N,d', log_scale='c:%s' % ls),
         lambda r: (lambda d, n: dict(jacobi_params=jparams(r, d), ordering=Arr((n, d), [r.randint(0, 3) for _ in range(n * d)]), dims=dict(d=d, N=n)))(r.choice((1, 2, 3)), 4), _=[('return', bounds)])
form('degrees_1D', fn(J + 'compute_degrees_1D_polynomials', max_degrees='iarr:d'), lambda r: (lambda d: dict(max_degrees=Arr((d,), [r.randint(0, 4) for _ in range(d)]), dims=dict(d=d)))(r.choice((1, 2, 3))),
     _=[('return.0', lambda v: max(v['max_degrees'].data)), ('return.1', lambda v: Arr((max(v['max_degrees'].data) + 1, v['d']), [n if n <= m else 0 for n in range(max(v['max_degrees'].data) + 1) for m in v['max_degrees'].data]))])
for n, d in ((1, 1), (3, 1), (3, 2), (4, 2), (7, 2), (9, 2), (12, 2), (5, 3), (8, 3), (9, 4)):
    form('ordering_%d_%d' % (n, d), fn(J + 'compute_ordering', N='c:%d' % n, d='c:%d' % d), lambda r: {},
         _=[('return', lambda v, n=n, d=d: Arr((n, d), [float(x) for q in ordering(n, d) for x in q]))])
for n, d in ((1, 1), (4, 1), (3, 2), (5, 2), (4, 3)):
    ct = dict(N='c:%d' % n, jacobi_params='arr:%d,2' % d)
    pt = lambda r, n=n, d=d: dict(N=n, jacobi_params=jparams(r, d), X=mat(r, 3, d, -.95, .95), Y=mat(r, 3, d, -.95, .95), dims=dict(m=3))

    def hk(ev, t, n=n, d=d):
        if t.op == 'call' and t.args[0] == 'chain':
            return tuple(ordering(n, d))
        return NotImplemented
    jo = lambda m, ct=ct, **k: obj(J + 'MultivariateJacobiOPE', ct, (m, k))
    XA, XYA = dict(X='arr:m,%d' % d), dict(X='arr:m,%d' % d, Y='arr:m,%d' % d)
    tag = '_%d_%d' % (n, d)
    form('jacobi_w' + tag, jo('eval_w', **XA), pt, _=[('return', 'a = jacobi_params[:, 0]\nb = jacobi_params[:, 1]\nprod((1 - X)**a * (1 + X)**b, axis=1)')], hook=hk)
    form('jacobi_poly' + tag, jo('eval_multiD_polynomials', **XA), pt, _=[('return', lambda v: jpoly(v, v['X']))], hook=hk)
    form('jacobi_K' + tag, jo('K', **XA), pt, _=[('return', kernel)], hook=hk)
    form('jacobi_Kxx' + tag, jo('K', eval_pointwise='c:True', **XA), pt, _=[('return', lambda v: kernel(v, True))], hook=hk)
    form('jacobi_KXY' + tag, jo('K', **XYA), pt, _=[('return', lambda v: kernel(v, False, True))], hook=hk)
    form('jacobi_Kxy' + tag, jo('K', eval_pointwise='c:True', **XYA), pt, _=[('return', lambda v: kernel(v, True, True))], hook=hk)
    form('jacobi_init' + tag, jo('eval_w', **XA), pt, hook=hk,
         _=[('mass_of_mu', lambda v, d=d: math.exp(sum(lnorm2(*v['jacobi_params'].data[2 * j:2 * j + 2], 0) for j in range(d)))),
            ('square_norms_multiD_polynomials', lambda v, n=n, d=d: Arr((n,), [math.exp(sum(lnorm2(*v['jacobi_params'].data[2 * j:2 * j + 2], k[j]) for j in range(d))) for k in ordering(n, d)])),
            ('rejection_bounds', lambda v, n=n, d=d: Arr((n,), [math.exp(sum(lbound(*v['jacobi_params'].data[2 * j:2 * j + 2], k[j]) for j in range(d))) for k in ordering(n, d)]))])

# ------------------------------------------------------------------ Tracy-Widom
TW = BP + 'TracyWidom'
form('tw_airy', obj(TW, {}, ('airy_kernel', dict(x='float', y='float'))), lambda r: dict(x=r.uniform(-2, 2), y=r.uniform(-2, 2)),
     _=[('return', 'a = airy(x)\nb = airy(y)\n(a[0] * b[1] - b[0] * a[1]) / (x - y)')], assume=(lambda v: v['x'] != v['y'],))
form('tw_change', obj(TW, {}, ('change_of_variable', dict(s='arr:k'))), lambda r: dict(s=vec(r, 2), x=vec(r, 3, .05, .95), dims=dict(k=2, n=3)),
     _=[('return.0', 's[:, None] + 10 * tan(0.5 * pi * x)', XS), ('return.1', '5 * pi / cos(0.5 * pi * x)**2', XS)])


def tw_kernel(v):
    """sqrt(phi'(x_i) phi'(x_j)) times the Airy kernel at phi(x_i), phi(x_j); on the diagonal, the quotient at the distance 1e-5"""
    s, x = v['s'].data, v['X'].data
    ai = pit.F['airy']
    res = []
    for u in s:
        f = [u + 10 * math.tan(.5 * math.pi * t) for t in x]
        w = [math.sqrt(5 * math.pi / math.cos(.5 * math.pi * t) ** 2) for t in x]
        for i in range(len(x)):
            for j in range(len(x)):
                a, b = ai(f[i]), ai(f[j] if i != j else f[i] - 1e-5)
                d = f[i] - f[j] if i != j else 1e-5
                res.append(w[i] * w[j] * (a[0] * b[1] - a[1] * b[0]) / d)
    return Arr((len(s), len(x), len(x)), res)


form('tw_kernel', obj(TW, {}, ('kernel', dict(s='arr:k'))), lambda r: dict(s=vec(r, 2), X=vec(r, 3, .05, .95), dims=dict(k=2, n=3)),
     _=[('return', tw_kernel, dict(X='arr:n'))])
form('tw_quadrature', obj(TW, {}, ('compute_quadrature', dict(order='int'))), lambda r: dict(order=r.choice((2, 3, 5))), _=[('return.0', 'leggauss(order)[0] / 2 + 0.5'), ('return.1', 'leggauss(order)[1] / 2')])


def user_kernel(x, y):
    n = len(x.data)
    return Arr((2, n, n), pit.uf('kernel', 2 * n * n, x, y))


def tw_det(v):
    x, w = v['x_quad'], v['w_quad'].data
    n = len(w)
    K = user_kernel(x, x).data
    return Arr((2,), [pit.F['det'](Arr((n, n), [float(i == j) - math.sqrt(w[i] * w[j]) * K[m * n * n + i * n + j] for i in range(n) for j in range(n)])) for m in range(2)])


form('tw_det', obj(TW, {}, ('fredholm_determinant', dict(kernel='fn', x_quad='arr:n', w_quad='arr:n'))), lambda r: dict(x_quad=vec(r, 3, .05, .95), w_quad=vec(r, 3, .1, .5), dims=dict(n=3)),
     env=lambda vals, r: ({'user:kernel': user_kernel}, {}), _=[('return', tw_det)])

# ------------------------------------------------------------------ exotic processes
def young(rows_):
    """points of the staircase of the diagram in the french convention, horizontal segments first, turned by 45 degrees and scaled by sqrt(2)"""
    pts = [(x, i + 1) for i, k in enumerate(rows_) for x in (0, k)]
    pts += [(j + 1, y) for j in range(rows_[0]) for y in (0, sum(k > j for k in rows_))]
    return Arr((len(pts), 2), [z for x, y in pts for z in (float(x - y), float(x + y))])


EX = 'exotic_dpps.'
form('limit_shape', fn('exotic_dpps_core.limit_shape', x='arr:n'), lambda r: dict(x=vec(r, 8, -4, 4), dims=dict(n=8)),
     _=[('return', lambda v: at(lambda x: abs(x) if abs(x) >= 2 else 2 / math.pi * (x * math.asin(x / 2) + math.sqrt(4 - x * x)), v['x']))])
form('young_ru', fn('exotic_dpps_core.xy_young_ru', young_diag='iarr:n'), lambda r: (lambda n: dict(young_diag=Arr((n,), sorted([r.randint(1, 4) for _ in range(n)])[::-1]), dims=dict(n=n)))(r.choice((1, 2, 3, 4))),
     _=[('return', lambda v: young(v['young_diag'].data))])
form('bernoulli_carries', obj(EX + 'CarriesProcess', dict(base='int'), ('_bernoulli_param', {})), lambda r: dict(base=r.choice((2, 3, 7, 10))), _=[('return', '(1 - 1 / base) / 2')])
form('bernoulli_descent', obj(EX + 'DescentProcess', {}, ('_bernoulli_param', {})), lambda r: {}, _=[('return', '0.5')])
form('bernoulli_virtual', obj(EX + 'VirtualDescentProcess', dict(x_0='float'), ('_bernoulli_param', {})), lambda r: dict(x_0=r.uniform(0, 1)), _=[('return', '(1 - x_0**2) / 2')])

# ------------------------------------------------------------------ samplers' ingredients
for k in (1, 2, 3):
    form('elementary_%d' % k, fn('exact_sampling.elementary_symmetric_polynomials', eig_vals='arr:4', size='c:%d' % k), lambda r: dict(eig_vals=vec(r, 4, 0, 2)),
         _=[('return', lambda v, k=k: Arr((k + 1, 5), [sum(math.prod(c) for c in itertools.combinations(v['eig_vals'].data[:n], j)) for j in range(k + 1) for n in range(5)]))])
form('selector', fn('exact_sampling.dpp_eig_vecs_selector', ber_params='arr:n', eig_vecs='arr:N,n', random_state='rng'),
     lambda r: dict(ber_params=vec(r, 4, 0, 1), eig_vecs=mat(r, 3, 4), dims=dict(n=4, N=3)), _=[('return', 'eig_vecs[:, U(4) < ber_params]')])

# ------------------------------------------------------------------ utilities
U = 'utils.'
v3 = lambda r: dict(arr1=vec(r, 4), arr2=vec(r, 4), dims=dict(n=4))
m3 = lambda r: dict(arr1=mat(r, 3, 4), arr2=mat(r, 3, 4), dims=dict(m=3, n=4))
for two in (0, 1):
    q = 'arr2' if two else 'arr1'
    form('inner1d_v%d' % two, fn(U + 'inner1d', arr1='arr:n', **(dict(arr2='arr:n') if two else {})), v3, _=[('return', 'sum(arr1 * %s)' % q)])
    for ax in (0, 1):
        form('inner1d_m%d_%d' % (two, ax), fn(U + 'inner1d', arr1='arr:m,n', axis='c:%d' % ax, **(dict(arr2='arr:m,n') if two else {})), m3, _=[('return', 'sum(arr1 * %s, axis=%d)' % (q, ax))])
ix = lambda r: dict(array=mat(r, 5, 5), S=Arr((2,), r.sample(range(5), 2)), T=Arr((2,), r.sample(range(5), 2)), dims=dict(N=5, k=2))
sub = lambda v, S, T: v['array'].data[S[0] * 5 + T[0]] * v['array'].data[S[1] * 5 + T[1]] - v['array'].data[S[0] * 5 + T[1]] * v['array'].data[S[1] * 5 + T[0]]
form('det_SS', fn(U + 'det_ST', array='arr:N,N', S='iarr:k'), ix, _=[('return', lambda v: sub(v, v['S'].data, v['S'].data))])
form('det_ST', fn(U + 'det_ST', array='arr:N,N', S='iarr:k', T='iarr:k'), ix, _=[('return', lambda v: sub(v, v['S'].data, v['T'].data))])
xy = lambda r: dict(X=mat(r, 3, 2), Y=mat(r, 4, 2), p=r.choice((1, 2, 3)), dims=dict(m=3, n=4, d=2))
u1 = lambda r: dict(X=mat(r, 3, 1, 0.01, .99), Y=mat(r, 4, 1, 0.01, .99), dims=dict(m=3, n=4, d=1))
for two in (0, 1):
    k = dict(X='arr:m,d', **(dict(Y='arr:n,d') if two else {}))
    q = 'Y' if two else 'X'
    form('L_linear%d' % two, fn(U + 'example_eval_L_linear', **k), xy, _=[('return', 'X @ %s.T' % q)])
    form('L_poly%d' % two, fn(U + 'example_eval_L_polynomial', **k), xy, _=[('return', '(X @ %s.T)**2' % q)])
    form('L_poly_p%d' % two, fn(U + 'example_eval_L_polynomial', p='int', **k), xy, _=[('return', '(X @ %s.T)**p' % q)])
    form('L_min%d' % two, fn(U + 'example_eval_L_min_kern', **k), u1, _=[('return', 'minimum(X, %s.T)' % q)])


BY = {f.key: f for f in FORMS}


def tasks(tier):
    for f in FORMS:
        yield ('form', f.key)


def judge(r, task, res):
    f = BY[task[1]]
    lb = label(f.task)
    res['label'] = lb
    found, decided, notes = formula.run(r, f)
    res['runs'] += 1
    res['obligations'] += decided + len(found)
    res['notes'] += notes
    seen = set()
    for x in found:
        if x['key'] not in seen:
            seen.add(x['key'])
            res['findings'].append(x)
