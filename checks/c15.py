"""Every representation of a finite DPP (K, L, eigendecompositions of either, Gram factor, matrix A_zono, kernel function with data; projection or
not) is analysed through histories of one and two calls (three in the thorough tier) of compute_K, compute_L, exact, k-DPP and Markov chain
sampling.  For every path the terms of the attributes K, L, K_eig_vals/L_eig_vals with eig_vecs and L_dual, and of the arguments handed to the
internal samplers, are evaluated at random values of the representation at which the conditions of the path hold, and compared with the kernels
that the representation defines: K = U diag(e) U^T, L = K (I-K)^-1, K = L (I+L)^-1, Phi^T Phi, A^T (A A^T)^-1 A, eval_L(X).  Eigenvalues must
rebuild their kernel with orthonormal eigenvectors, the eigenvectors handed to the second phase must span an invariant subspace and, unless the
process is a projection, have been selected at random.  Random interpretation (Gulwani, Necula): no code of the package is run."""
import ast
import random
from sa import sweep, pit, formula
from sa.sweep import finding, label, freeze, fd_spec, REPS
from sa.terms import T, C, Term, show, subterms
from sa.domain import path_of
from sa.pit import Arr, Ev, Draws, NotEval, close, mul, dot, transpose, solve, sub, add, eye, diag

TITLE = 'all representations of a finite DPP describe the same process'
LEVEL = 'other'
RULE = 'random interpretation of the terms stored on the object and handed to the samplers, against the kernel defined by the representation'
MAX_STATES = dict(quick=24, thorough=40)
POINTS = 3

CALLS = [('compute_K', {}), ('compute_L', {}),
         ('sample_exact', {'mode': "c:'GS'"}), ('sample_exact', {'mode': "c:'Chol'"}), ('sample_exact', {'mode': "c:'Schur'"}),
         ('sample_exact_k_dpp', {'mode': "c:'GS'", 'size': 'int'}), ('sample_exact', {'mode': "c:'vfx'"}), ('sample_exact_k_dpp', {'mode': "c:'alpha'", 'size': 'int'}),
         ('sample_mcmc', {'mode': "c:'E'", 'size': 'int', 'nb_iter': 'int'}), ('sample_mcmc', {'mode': "c:'AD'", 'size': 'int', 'nb_iter': 'int'}),
         ('sample_mcmc', {'mode': "c:'zonotope'", 'nb_iter': 'int'}), ('sample_mcmc_k_dpp', {'size': 'int', 'nb_iter': 'int'}),
         ('sample_exact', {'mode': "c:'alpha'"}), ('sample_exact_k_dpp', {'mode': "c:'vfx'", 'size': 'int'}), ('sample_mcmc', {'mode': "c:'AED'", 'size': 'int', 'nb_iter': 'int'})]
FIRST = (0, 1, 2, 5, 8)     # calls that leave something on the object


def spec_of(i):
    m, s = CALLS[i]
    s = dict(s)
    if m.startswith('sample'):
        s['random_state'] = 'rng'
    return m, freeze(s)


def tasks(tier):
    for rep in REPS:
        for pr in (False, True):
            for i in range(len(CALLS)):
                yield ('repr', rep, pr, (i,))
    for rep in REPS:
        for pr in (False, True):
            for i in FIRST:
                for j in (range(12) if tier == 'quick' else range(len(CALLS))):
                    if j in (6, 7, 10) and rep not in ('L_eval_X_data', 'A_zono'):
                        continue
                    yield ('repr', rep, pr, (i, j))
    if tier != 'quick':
        for rep in REPS:
            for pr in (False, True):
                for i in FIRST:
                    for j in FIRST:
                        for k in range(len(CALLS)):
                            yield ('repr', rep, pr, (i, j, k))


# ---------------------------------------------------------------- the kernel a representation stands for
def orth(r, n, k):
    a = formula.mat(r, n, k)
    q, _ = pit.F['qr'](a, mode='economic') if k < n else pit.F['qr'](a)
    return q


def point(rep, projection, r):
    """(values of the arguments, correlation kernel, likelihood kernel or None)"""
    n = r.choice((3, 4))
    k = r.choice((1, 2)) if projection else n
    vals = {'dims': {}}
    I = eye(n)
    if rep in ('K', 'L', 'K_eig_dec', 'L_eig_dec'):
        full = rep in ('K', 'L') or r.random() < .5
        u = orth(r, n, n)
        if projection:
            e = Arr((n,), [0.0] * (n - k) + [1.0] * k)
        elif rep.startswith('K'):
            e = Arr((n,), [r.uniform(.05, .95) for _ in range(n)])
        else:
            e = Arr((n,), [r.uniform(.05, 3) for _ in range(n)])
        if not full:        # a decomposition without the null space
            m = k if projection else n - 1
            u, e = pit.getidx(u, (slice(None), slice(n - m, n))), pit.getidx(e, slice(n - m, n))
        ker = dot(mul(u, e), transpose(u))
        if rep in ('K', 'L'):
            vals[rep] = ker
        else:
            vals[rep + '.vals'], vals[rep + '.vecs'] = e, u
            vals['dims']['R'] = e.shape[0]
    elif rep == 'A_zono':
        d = r.choice((1, 2))
        a = vals[rep] = formula.mat(r, d, n)
        vals['dims']['R'] = d
        ker = dot(transpose(a), solve(dot(a, transpose(a)), a))
    elif rep == 'L_gram_factor':
        d = r.choice((1, 2, n, n + 1)) if not projection else r.choice((1, 2, n))
        a = transpose(orth(r, n, d)) if projection else formula.mat(r, d, n) if d > n else dot(mul(orth(r, d, d), Arr((d,), [r.uniform(.2, .7) ** (-1) ** i for i in range(d)])), transpose(orth(r, n, d)))
        vals[rep] = a
        vals['dims']['R'] = d
        ker = dot(transpose(a), a)
    else:
        d = 2
        x = vals[rep + '.X'] = transpose(orth(r, d, n)) if False else formula.mat(r, n, d)
        if projection:
            q = orth(r, n, d)
            x = vals[rep + '.X'] = q
        vals['dims'].update(d=d, D=d)
        ker = dot(x, transpose(x))
    vals['dims']['N'] = n
    if rep in ('K', 'K_eig_dec', 'A_zono'):
        K = ker
        L = None if projection or rep == 'A_zono' else transpose(solve(sub(I, K), K))
    else:
        L = ker
        K = solve(add(I, L), L)
    return vals, K, L


def gram(x, y=None, **k):
    x = pit.atleast_2d(x)
    return dot(x, transpose(x if y is None else pit.atleast_2d(y)))


def rebuilt(u, e):
    u, e = pit.arr(u), pit.arr(e)
    if len(u.shape) != 2 or e.shape != (u.shape[1],):
        return None
    return dot(mul(u, e), transpose(u))


TOL = 1e-5


class Point:
    def __init__(self, rep, projection, seed, params):
        r = random.Random('%s|%s|%d' % (rep, projection, seed))
        self.projection = projection or rep == 'A_zono'
        self.correlation = rep in ('K', 'K_eig_dec', 'A_zono')
        self.vals, self.K, self.L = point(rep, self.projection, r)
        env, self.names = formula.bind(self.vals)
        self.rank = int(round(sum(diag(self.K).data))) if self.projection and self.correlation else int(round(sum(diag(self.L).data))) if self.projection else r.choice((1, 2))
        for q in params:
            if q.split('.')[-1] == 'size':
                env[T('param', q)] = self.rank
            elif q.split('.')[-1] == 'nb_iter':
                env[T('param', q)] = 5
        env['user:L_eval_X_data.eval'] = gram
        env['user:eval_L'] = gram
        env['meth:diag'] = lambda f, x, *a: diag(gram(x)) if not isinstance(f, Arr) else pit.F['diag'](f)
        self.env, self.seed = env, seed

    def ev(self):
        return Ev(self.env, Draws(str(self.seed)))


def bad_K(pt, v):
    return None if close(v, pt.K, TOL) else 'is not the correlation kernel'


def bad_L(pt, v):
    if pt.L is None:
        raise NotEval('no likelihood kernel')
    return None if close(v, pt.L, TOL) else 'is not the likelihood kernel'


def bad_eig(pt, e, u, which):
    m = rebuilt(u, e)
    if m is None:
        return 'does not match the number of eigenvectors'
    ref = pt.K if which == 'K' else pt.L
    if ref is None:
        raise NotEval('no likelihood kernel')
    if not close(dot(transpose(u), pit.arr(u)), eye(pit.arr(u).shape[1]), TOL):
        return 'go with vectors that are not orthonormal'
    return None if close(m, ref, TOL) else 'are not the %s eigenvalues of these eigenvectors' % ('correlation' if which == 'K' else 'likelihood')


def bad_columns(pt, v):
    v = pit.arr(v)
    if len(v.shape) != 2 or v.shape[0] != pt.K.shape[0]:
        return 'are not eigenvectors'
    if not v.data:
        return 'do not span the range of the projection kernel' if pt.projection and pt.correlation else None
    if not close(dot(transpose(v), v), eye(v.shape[1]), TOL):
        return 'are not orthonormal'
    P = dot(v, transpose(v))
    if not close(dot(P, pt.K), dot(pt.K, P), TOL):
        return 'do not span an invariant subspace of the kernel'
    if pt.projection and pt.correlation and not close(P, pt.K, TOL):
        return 'do not span the range of the projection kernel'
    return None


def bad_powers(pt, e):
    if pt.L is None:
        raise NotEval('no likelihood kernel')
    q = pt.L
    for k in (1, 2, 3):
        if not close(sum(v ** k for v in pit.arr(e).data), sum(diag(q).data), TOL):
            return 'are not the likelihood eigenvalues'
        q = dot(q, pt.L)
    return None


def handed(name, a, pt, ev, mode):
    """checks of the arguments of the internal samplers: yields (argument, complaint or None)"""
    def g(*ks):
        for k in ks:
            if k in a:
                return ev(a[k])
        raise NotEval('argument')
    if name.endswith('.dpp_eig_vecs_selector'):
        vs = list(a)
        yield 'ber_params', bad_eig(pt, g(vs[0]), g(vs[1]), 'K')
    elif name.endswith('.k_dpp_eig_vecs_selector'):
        yield 'eig_vals', bad_eig(pt, g('eig_vals'), g('eig_vecs'), 'L')
    elif name.endswith('.elementary_symmetric_polynomials'):
        yield 'eig_vals', bad_powers(pt, g('eig_vals'))
    elif name.endswith('.proj_dpp_sampler_eig'):
        yield 'eig_vecs', bad_columns(pt, g('eig_vecs'))
        if not (pt.projection and (pt.correlation or mode == 'k')) and not any(x.op in ('draw', 'phi', 'site') for x in subterms(a['eig_vecs'])):
            yield 'eig_vecs', 'are not selected at random'
    elif name.endswith('.proj_dpp_sampler_kernel'):
        yield 'kernel', (bad_K if pt.correlation else bad_L)(pt, g('kernel'))
    elif name.endswith('.dpp_sampler_generic_kernel'):
        yield 'K', bad_K(pt, g('K'))
    elif name.endswith('.dpp_sampler_mcmc'):
        yield 'kernel', (bad_K if pt.correlation and pt.projection else bad_L)(pt, g('kernel'))
    elif name.endswith('.zonotope_sampler'):
        yield 'A_zono', None if close(g('A_zono'), pt.vals['A_zono']) else 'is not the matrix the DPP was defined with'
    elif name.endswith(('.dpp_vfx_sampler', '.alpha_dpp_sampler', '.k_dpp_vfx_sampler', '.alpha_k_dpp_sampler')):
        yield 'X_data', None if close(g('X_data'), pt.vals['L_eval_X_data.X']) else 'is not the data the DPP was defined with'


def setup(r):
    def call(p, n, st, d):
        short = d['name'].rsplit('.', 1)[-1]
        if short in NAMES and 'args' in d and all(f.qual.startswith('dppy.finite_dpps.') for f, _, _ in p.cstack):
            try:
                a = {k: p.tm(st, v) for k, v in d['args'].items() if k not in ('random_state',)}
            except Exception:
                return
            r.c15.append((d['name'], a, path_of(st), p.where(n), 'k' if any(f.qual.endswith('k_dpp') for f, _, _ in p.cstack) else ''))
    r.c15 = []
    r.keep, r.merge = True, 6
    ids = set()
    for m in r.p.modtrees:      # conditions of the internal samplers do not restrict the representation
        if m not in ('dppy.finite_dpps', 'dppy.utils'):
            ids.update(id(x) for x in ast.walk(r.p.modtrees[m]))
    r.c15free = lambda n: id(n) in ids
    r.p.hooks['call'] = call


NAMES = {'dpp_eig_vecs_selector', 'k_dpp_eig_vecs_selector', 'elementary_symmetric_polynomials', 'proj_dpp_sampler_eig', 'proj_dpp_sampler_kernel', 'dpp_sampler_generic_kernel',
         'dpp_sampler_mcmc', 'zonotope_sampler', 'dpp_vfx_sampler', 'alpha_dpp_sampler', 'k_dpp_vfx_sampler', 'alpha_k_dpp_sampler'}


def conditions(ev, path):
    return formula.holds(ev, path)


def judge(r, task, res):
    _, rep, pr, ix = task
    p = r.p
    t = ('obj', sweep.FD, freeze(fd_spec(rep, pr)), tuple(spec_of(i) for i in ix))
    lb = label(t)
    res['label'] = lb
    r.c15 = []
    found = {}
    runs = r.run(t)
    entry = 'FiniteDPP.' + t[3][-1][0]

    def report(where, fn, detail, msg):
        f = finding('representation', where, fn, detail, msg, lb)
        found.setdefault(f['key'], f)

    def try_points(path, test, params):
        """complaint of test at two sample points at least"""
        bad, ok, why = [], 0, ''
        for i in range(12):
            pt = points.setdefault((i, params), None) or Point(rep, pr, i, params)
            points[(i, params)] = pt
            ev = pt.ev()
            h = formula.holds(ev, path, r.c15free)
            if h is False:
                continue
            try:
                m = test(pt, ev)
            except NotEval as e:
                why = str(e)
                continue
            except (TypeError, ValueError, IndexError, ZeroDivisionError, AttributeError) as e:
                why = repr(e)
                continue
            if m is None:
                ok += 1
            elif h is None:
                why = 'a condition of the path cannot be evaluated'
            else:
                bad.append(m)
            if len(bad) >= 2 or ok >= POINTS:
                break
        if len(bad) >= 2:
            return bad[0]
        if not ok and why:
            res['notes'].append('undecided: %s: %s' % (lb, why[:80]))
        if ok:
            res['obligations'] += 1
        return None

    points = {}
    params = tuple('%ssize' % q for q in ('', 's1.', 's2.', 's3.')) + tuple('%snb_iter' % q for q in ('', 's1.', 's2.', 's3.'))
    for run in runs:
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        if run.fail:
            res['notes'].append('not analysed: %s: %s' % (lb, run.fail))
            continue
        for st, v in run.rets:
            path = path_of(st)
            o = p.the_obj(st, run.recv)
            if o is None or not o.attrs:
                continue

            def at(k):
                x = o.attrs.get(k)
                if x is None:
                    return None
                tm = p.tm(st, x)
                return None if tm.op == 'const' and tm.args[0] is None else tm
            f = p.find_method(sweep.FD + '.' + t[3][-1][0])
            where, fn = (p.where(f[1].node, f[1].mod), 'finite_dpps.' + entry) if f else (('', 0), entry)
            for k, bad in (('K', bad_K), ('L', bad_L)):
                tm = at(k)
                if tm is not None:
                    m = try_points(path, lambda pt, ev: bad(pt, ev(tm)), params)
                    if m:
                        report(where, fn, k, 'after %s, attribute %s %s of the DPP: %s' % (lb, k, m, show(tm, 8)[:300]))
            u = at('eig_vecs')
            for k, which in (('K_eig_vals', 'K'), ('L_eig_vals', 'L')):
                tm = at(k)
                if tm is not None and u is not None:
                    m = try_points(path, lambda pt, ev: bad_eig(pt, ev(tm), ev(u), which), params)
                    if m:
                        report(where, fn, k, 'after %s, attribute %s: the values %s: %s' % (lb, k, m, show(tm, 8)[:300]))
            tm = at('L_dual')
            if tm is not None and rep == 'L_gram_factor':
                m = try_points(path, lambda pt, ev: None if close(ev(tm), dot(pt.vals[rep], transpose(pt.vals[rep])), TOL) else 'is not Phi Phi^T', params)
                if m:
                    report(where, fn, 'L_dual', 'after %s, attribute L_dual %s: %s' % (lb, m, show(tm, 8)[:300]))
    for name, a, path, where, mode in r.c15:
        def test(pt, ev):
            for arg, m in handed(name, a, pt, ev, mode):
                if m:
                    return '%s|%s' % (arg, m)
        m = try_points(path, test, params)
        if m:
            arg, m = m.split('|')
            report(where, name.replace('dppy.', ''), arg, 'in %s, argument %s handed to %s: %s: %s' % (lb, arg, name.replace('dppy.', ''), m, show(a[arg], 8)[:300] if arg in a else ''))
    r.c15 = []
    r.cache.clear()
    for f in found.values():
        res['findings'].append(f)
