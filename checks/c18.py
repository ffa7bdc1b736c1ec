"""Partitioned parameter domains. For every documented restriction (beta, matrix sizes, gamma shape, starting point, Jacobi
parameters, number of points, polynomial potential, k against the rank, connectivity, empty history) the public call is followed
under the assumption that the parameter lies outside of its domain: every exit that remains feasible must be a raise of
ValueError (or NotImplementedError). Under the assumption that it lies inside, boundary included, a normal exit must remain."""
from sa import sweep
from sa.sweep import finding, freeze, base_sample, fd_spec
from sa.drive import FN, CL, FD
from sa.domain import run_dom, dom_label, dom_of, path_of, exotic
from sa.absval import num, arr, poly, INF
from sa.terms import Term
from checks.c08 import subclass

LEVEL = 'other'
RULE = 'an obligation is one exit of a call with a parameter outside of its documented domain, or one call with parameters inside of it'
X, M, R, P = 'dppy.exact_sampling.', 'dppy.mcmc_sampling.', 'dppy.random_matrices.', 'dppy.beta_ensemble_polynomial_potential_core.'
BE, EX = 'dppy.beta_ensembles.', 'dppy.exotic_dpps.'
BP = 'dppy.beta_ensemble_polynomial_potential.BetaEnsemblePolynomialPotential'
MJ = 'dppy.multivariate_jacobi_ope.MultivariateJacobiOPE'
ENS = ('HermiteEnsemble', 'LaguerreEnsemble', 'JacobiEnsemble', 'CircularEnsemble', 'GinibreEnsemble')
FULL, BAND = 'sample_full_model', 'sample_banded_model'
G = 'Gt', 'Lt', 'GtE', 'LtE', 'Eq', 'NotEq'


def q(v):
    return 'c:%r' % (v,)


def out(what, name, cspec, hist=(), assume=(), params=(), preds=()):
    return ('dom', what, name, freeze(cspec) if isinstance(cspec, dict) else cspec, hist, tuple(assume), tuple(params), tuple(preds)), 'out'


def inn(*a, **k):
    return out(*a, **k)[0], 'in'


def call(cname, m, **over):
    return (base_sample(cname, m, **over),)


def table():
    yield from beta_table()
    yield from size_table()
    yield from poly_table()
    yield from rank_table()
    yield from jacobi_table()
    yield from other_table()


def beta_table():
    for e in ENS[:4]:
        for ty in ('float', 'int'):
            yield out('obj', BE + e, {'beta': ty}, assume=[('Lt', 'beta', 0)])
        yield inn('obj', BE + e, {'beta': 'int'}, assume=[('Gt', 'beta', 0)])
        if e != 'CircularEnsemble':
            yield inn('obj', BE + e, {'beta': 'float'}, assume=[('Gt', 'beta', 0), ('Lt', 'beta', 0.5)])
        yield inn('obj', BE + e, {'beta': q(0)})
    yield out('obj', BE + 'CircularEnsemble', {'beta': 'float'})
    yield out('obj', BE + 'GinibreEnsemble', {'beta': 'float'}, assume=[('NotEq', 'beta', 2)])
    yield out('obj', BE + 'GinibreEnsemble', {'beta': 'int'}, assume=[('NotEq', 'beta', 2)])
    yield inn('obj', BE + 'GinibreEnsemble', {'beta': q(2)})
    for fn in ('mu_ref_normal_sampler_tridiag', 'mu_ref_gamma_sampler_tridiag', 'mu_ref_beta_sampler_tridiag', 'mu_ref_unif_unit_circle_sampler_quindiag'):
        sp = dict(next(iter(sweep.alternatives(FN[R + fn], rs='rng'))))
        for ty in ('float', 'int'):
            yield out('fn', R + fn, (), freeze(dict(sp, beta=ty)), assume=[('LtE', 'beta', 0)])
        yield inn('fn', R + fn, (), freeze(dict(sp, beta='int')), assume=[('Gt', 'beta', 0)])
        if 'quindiag' not in fn:
            yield inn('fn', R + fn, (), freeze(dict(sp, beta='float')), assume=[('Gt', 'beta', 0), ('Lt', 'beta', 0.5)])
    yield out('fn', R + fn, (), freeze(dict(sp, beta='float')))
    for ty in ('float', 'int'):
        for V in ('poly',):
            yield out('obj', BP, {'beta': ty, 'potential_V': V}, assume=[('LtE', 'beta', 0)])
    # beta = 0 and a gamma law of shape 0
    L = BE + 'LaguerreEnsemble'
    yield out('obj', L, {'beta': q(0)}, call(L, FULL))
    yield out('obj', L, {'beta': q(0)}, call(L, BAND, size_M='none'), [('LtE', 'shape', 0)])
    yield out('obj', L, {'beta': q(0)}, call(L, BAND, size_M='int'))
    for hi in (0.5, 9):
        yield inn('obj', L, {'beta': q(0)}, call(L, BAND, size_M='none'), [('Gt', 'shape', 0), ('Lt', 'shape', hi)])
    yield inn('obj', BP, {'beta': 'float', 'potential_V': 'poly'}, assume=[('Gt', 'beta', 0), ('Lt', 'beta', 0.5)])
    yield out('obj', BE + 'GinibreEnsemble', {'beta': q(2)}, ((BAND, ()),))


def size_table():
    L, J = BE + 'LaguerreEnsemble', BE + 'JacobiEnsemble'
    for b in (1, 2, 4, 'float'):
        c = {'beta': q(b) if b != 'float' else 'float'}
        pos = [('Gt', 'beta', 0)] if b == 'float' else []
        for m in (FULL, BAND):
            if m == FULL and b == 'float':
                continue
            cl = call(L, m, size_M='int', size_N='int')
            yield out('obj', L, c, cl, pos + [('Lt', 'size_M', 'size_N')])
            yield out('obj', L, c, call(L, m, size_M=q(0), size_N='int'), pos + [('Gt', 'size_N', 0)])
            yield inn('obj', L, c, cl, pos + [('Eq', 'size_M', 'size_N'), ('Gt', 'size_N', 0)])
            yield inn('obj', L, c, cl, pos + [('Gt', 'size_M', 'size_N'), ('Gt', 'size_N', 0)])
            cl = call(J, m, size_M1='int', size_M2='int', size_N='int')
            yield out('obj', J, c, cl, pos + [('Lt', 'size_M1', 'size_N'), ('GtE', 'size_M2', 'size_N'), ('Gt', 'size_M1', 0)])
            yield out('obj', J, c, cl, pos + [('GtE', 'size_M1', 'size_N'), ('Lt', 'size_M2', 'size_N'), ('Gt', 'size_M2', 0)])
            yield out('obj', J, c, cl, pos + [('Lt', 'size_M1', 'size_N'), ('Lt', 'size_M2', 'size_N'), ('Gt', 'size_M2', 0), ('Gt', 'size_M1', 0)])
            yield out('obj', J, c, call(J, m, size_M1=q(0), size_M2='int', size_N='int'), pos + [('GtE', 'size_M2', 'size_N'), ('Gt', 'size_N', 0)])
            yield inn('obj', J, c, cl, pos + [('Eq', 'size_M1', 'size_N'), ('Eq', 'size_M2', 'size_N'), ('Gt', 'size_N', 0)])
            yield inn('obj', J, c, cl, pos + [('Gt', 'size_M1', 'size_N'), ('Gt', 'size_M2', 'size_N'), ('Gt', 'size_N', 0)])


def poly_table():
    c = {'beta': q(2), 'potential_V': 'poly'}
    any_ = (-9, 9)

    def V(n, **k):
        return [('potential_V', poly(n, **k))]
    yield out('obj', BP, c, params=V(6, c6=(0.1, 9), c5=(0.01, 9)))
    yield out('obj', BP, c, params=V(6, c6=(0.1, 9), c5=(-9, -0.01)))
    for n in (1, 3, 5, 7):
        yield out('obj', BP, c, params=V(n, **{'c%d' % n: (0.1, 9)}))
    for n in (2, 4, 6):
        yield out('obj', BP, c, params=V(n, **dict({'c%d' % n: (-9, -0.1)}, c5=0) if n == 6 else {'c%d' % n: (-9, -0.1)}))
        yield inn('obj', BP, c, params=V(n, **dict({'c%d' % n: (0.1, 9), 'c0': 0}, **({'c5': 0} if n == 6 else {}))))
    for k in (0.1, 0.5), (2, 9):
        yield inn('obj', BP, c, params=V(4, c4=k, c3=any_, c2=any_, c1=any_, c0=0))
        yield inn('obj', BP, c, params=V(6, c6=k, c5=0, c4=any_, c3=any_, c2=any_, c1=any_, c0=0))
    for n in (8, 10):
        yield out('obj', BP, c, params=V(n, **{'c%d' % n: (0.1, 9), 'c5': 0}))
    ex = call(BP, 'sample_mcmc', sample_exact_cond=q(True), return_chain_of_eig_vals=q(False), return_chain_of_lambda_max=q(False))
    yield out('obj', BP, c, ex, params=V(4, c4=(0.1, 9), c3=(0.01, 9), c2=0, c1=0, c0=0))
    yield out('obj', BP, c, ex, params=V(4, c4=(0.1, 9), c3=(-9, -0.01), c2=(0.1, 9), c1=0, c0=0))
    yield out('obj', BP, c, ex, params=V(6, c6=(0.1, 9), c5=0, c4=0, c3=0, c2=0, c1=0, c0=0))
    yield out('obj', BP, c, ex, params=V(4, c4=(0.1, 9), c3=0, c2=(-9, -0.1), c1=0, c0=0))
    mala = call(BP, 'sample_mcmc', sample_exact_cond=q(False), return_chain_of_eig_vals=q(False), return_chain_of_lambda_max=q(False))
    for d in (dict(c4=(0.1, 9), c3=0, c2=0, c1=0, c0=0), dict(c4=(0.1, 0.5), c3=0, c2=(0.1, 0.5), c1=(0.1, 9), c0=0), dict(c2=(0.1, 9), c1=(-9, -0.1), c0=0)):
        yield inn('obj', BP, c, ex, params=V(4 if 'c4' in d else 2, **d))
    yield inn('obj', BP, c, mala, params=V(4, c4=(0.1, 9), c3=(0.1, 9), c2=(-9, -0.1), c1=0, c0=0))
    yield inn('obj', BP, c, mala, params=V(6, c6=(0.1, 9), c5=0, c4=(-9, -1), c3=(0.1, 9), c2=(-9, -0.1), c1=0, c0=0))
    for x in 'ab':
        fn = P + 'polynomial_in_negative_log_conditional_%s_coef' % x
        sp = freeze(dict(FN[fn]))
        yield out('fn', fn, (), sp, params=[('V', poly(8, c8=(0.1, 9)))])
        yield inn('fn', fn, (), sp, params=[('V', poly(6, c6=(0.1, 9)))])
    fn = P + 'cdf_equilibrium_x2m'
    for n in (1, 4, 5):
        yield out('fn', fn, (), freeze(dict(m=q(n), g_2m='float')))
    for n in (2, 3):
        yield inn('fn', fn, (), freeze(dict(m=q(n), g_2m='float')))


def rank_table():
    """k against the rank"""
    for mode in ('GS', 'Schur', 'Chol'):
        sp = freeze(dict(kernel='arr:N,N', mode=q(mode), size='int', random_state='rng'))
        yield out('fn', X + 'proj_dpp_sampler_kernel', (), sp, [('Gt', 'size', 0)], preds=[('size_vs', 'size Gt kernel')])
        yield inn('fn', X + 'proj_dpp_sampler_kernel', (), sp, preds=[('size_vs', 'size Eq kernel')])
    for mode in ('GS', 'GS_bis', 'KuTa12'):
        sp = freeze(dict(eig_vecs='arr:N,R', mode=q(mode), size='int', random_state='rng'))
        yield out('fn', X + 'proj_dpp_sampler_eig', (), sp, [('Gt', 'size', 0)], preds=[('size_vs', 'size Gt dim R')])
        yield inn('fn', X + 'proj_dpp_sampler_eig', (), sp, preds=[('size_vs', 'size Eq dim R')])
    for e in ('none', 'arr:R1,K1'):
        sp = freeze(dict(eig_vals='arr:R', eig_vecs='arr:N,R', size='int', E_poly=e, random_state='rng'))
        yield out('fn', X + 'k_dpp_eig_vecs_selector', (), sp, preds=[('size_vs', 'size Gt eig_vals')])
        yield inn('fn', X + 'k_dpp_eig_vecs_selector', (), sp, preds=[('size_vs', 'size Eq eig_vals')])
    for rep, w in (('K', 'K'), ('K_eig_dec', 'K_eig_dec.vals'), ('A_zono', 'dim R|A_zono')):
        for rel in ('Gt', 'Lt'):
            for mode in ('GS', 'Schur') if rep == 'K' else ('GS', 'GS_bis'):
                yield out('obj', FD, fd_spec(rep, True), (('sample_exact_k_dpp', freeze(dict(size='int', mode=q(mode), random_state='rng'))),), preds=[('size_vs', 'size %s %s' % (rel, w))])
            yield out('obj', FD, fd_spec(rep, True), (('sample_mcmc', freeze(dict(size='int', mode=q('E'), nb_iter='int', random_state='rng'))),), preds=[('size_vs', 'size %s %s' % (rel, w))])
        for mode in ('GS', 'Schur') if rep == 'K' else ('GS', 'GS_bis'):
            yield inn('obj', FD, fd_spec(rep, True), (('sample_exact_k_dpp', freeze(dict(size='int', mode=q(mode), random_state='rng'))),), preds=[('size_vs', 'size Eq ' + w)])
        yield inn('obj', FD, fd_spec(rep, True), (('sample_mcmc', freeze(dict(size='int', mode=q('E'), nb_iter='int', random_state='rng'))),), preds=[('size_vs', 'size Eq ' + w)])
    for rep, w in (('L_eig_dec', 'L_eig_dec.vals'), ('L', 'L'), ('K_eig_dec', 'K_eig_dec.vals'), ('K', 'K'), ('L_gram_factor', 'L_gram_factor')):
        yield out('obj', FD, fd_spec(rep, False), (('sample_exact_k_dpp', freeze(dict(size='int', mode=q('GS'), random_state='rng'))),), preds=[('size_vs', 'size Gt ' + w)])


def jacobi_table():
    for ty in ('int', 'float'):
        yield out('obj', MJ, {'N': ty, 'jacobi_params': 'arr:D,2'}, assume=[('Lt', 'N', 1)])
    yield out('obj', MJ, {'N': 'float', 'jacobi_params': 'arr:D,2'})
    one, two, three = ({'N': 'int', 'jacobi_params': 'arr:%d,2' % d} for d in (1, 2, 3))

    def p(*cl):
        return [('jacobi_params', arr(*[num(*c) for c in cl]))]
    N1 = [('GtE', 'N', 1)]
    yield out('obj', MJ, one, assume=N1, preds=[('isint', 'N')], params=p((-9, -1), (-0.4, 0.4)))
    yield out('obj', MJ, one, assume=N1, preds=[('isint', 'N')], params=p((-1, -1), (-0.4, 0.4)))
    yield inn('obj', MJ, one, assume=N1, preds=[('isint', 'N')], params=p((-0.99, -0.6), (0.6, 9)))
    for c in (two, three):
        yield out('obj', MJ, c, assume=N1, preds=[('isint', 'N')], params=p((0.51, 9), (-0.4, 0.4)))
        yield out('obj', MJ, c, assume=N1, preds=[('isint', 'N')], params=p((-9, -0.51), (-0.4, 0.4)))
        yield inn('obj', MJ, c, assume=N1, preds=[('isint', 'N')], params=p((-0.5, -0.5), (0.5, 0.5), (0, 0)))
    for d in (3, 4):
        yield out('obj', MJ, {'N': 'int', 'jacobi_params': 'arr:%d,2' % d}, (('plot', freeze(dict(sample='arr:N,%d' % d, weighted='str'))),))


def other_table():
    V = EX + 'VirtualDescentProcess'
    yield out('obj', V, {'x_0': 'float'}, assume=[('Lt', 'x_0', 0)])
    yield out('obj', V, {'x_0': 'float'}, assume=[('Gt', 'x_0', 1)])
    for v in (0, 1, 0.5):
        yield inn('obj', V, {'x_0': q(v)})
    yield out('obj', EX + 'UST', {'graph': 'graph'}, preds=[('disconnected', 'graph')])
    yield inn('obj', EX + 'UST', {'graph': 'graph'}, preds=[('connected', 'graph')])
    for e in ENS:
        for m in ('plot', 'hist'):
            for n in (True, False):
                yield out('obj', BE + e, {'beta': q(2)}, ((m, freeze({'normalization': q(n)})),))
                yield inn('obj', BE + e, {'beta': q(2)}, call(BE + e, FULL) + ((m, freeze({'normalization': q(n)})),))


def tasks(tier):
    for t, kind in table():
        yield ('part', t, kind)


OKERR = ('ValueError', 'NotImplementedError')


def judge(r, task, res, only=None):
    _, t, kind = task
    p = r.p
    lb = dom_label(t)
    res['label'] = lb
    dom, names = dom_of(t)
    names = {n.split()[0] if ' ' in n else n for n in names} | set(only or ())
    fn = t[2] + ('.' + t[4][-1][0] if t[1] == 'obj' and t[4] else '')
    what = ','.join(sorted(names)) or {'obj': 'state', 'fn': 'args'}[t[1]]
    runs = run_dom(r, t)
    r.cache.clear()
    for run in runs:
        run.label = lb
        res['runs'] += 1
        res['paths'] += len(run.rets)
        res['raises'] += len(run.raises)
        res['obligations'] += len(run.rets) + len(run.raises)
        if run.fail:
            continue
        if kind == 'in':
            if not run.rets and run.raises and all(not x[1].implicit or x[1].name in ('TypeError', 'AttributeError') for x in run.raises):
                x = run.raises[0][1]
                res['findings'].append(finding('rejected-valid', p.where(x.node) if x.node is not None else '', fn, what, 'parameters inside their domain always end in %s' % x.name, lb))
            continue
        v = vague(run, dom, names)
        if v is not None:
            res['notes'].append('undecided condition on %s: %s: %s' % (what, lb, str(v)[:120]))
            continue
        if run.rets:
            res['findings'].append(finding('accepted', '', fn, what, 'parameters outside their domain are accepted: the call can return normally', lb))
        for st, exc, *_ in run.raises:
            if exc.name is None or exc.implicit and run.rets:
                continue
            if not any(subclass(p, exc.name, b) for b in OKERR):
                if not [s for s in path_of(st) if len(s) > 3 and s[3]]:
                    res['findings'].append(finding('wrong-error', p.where(exc.node) if exc.node is not None else '', fn, '%s:%s' % (what, exc.name),
                                                   'parameters outside their domain end in %s' % exc.name, lb))


def vague(run, dom, names):
    """a raising exit that hangs on a condition about the parameter which the partition does not decide"""
    if not run.rets:
        return None
    for st, exc, *_ in run.raises:
        if exc.implicit:
            continue
        for step in path_of(st):
            t = step[4] if len(step) > 4 else None
            if isinstance(t, Term) and exotic(t, names) and step[2] is not None:
                return t
    return None
