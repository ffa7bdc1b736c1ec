"""Drivers: the public entry points of the package with symbolic arguments.

An entry is described by the name of a public function, class or method and the domain of each argument; the analysis
starts there with symbolic arrays, numbers, generators and callables.  Entries that no longer exist are skipped and
reported in the evidence.  What lies below an entry (helpers, their names, their number) is not described here."""
import itertools
import time
from .terms import T, C
from .engine import (O, V, mkv, unk, const, NONE, TRUE, FALSE, NOTAGS, Giveup, locs, sole, cval, Event)
from .stmts import Program


def dim(x):
    if isinstance(x, int) or (isinstance(x, str) and x.isdigit()):
        return C(int(x))
    return T('dim', x)


class B:
    """builder of symbolic arguments in a state"""

    def __init__(self, p, st, tag=True, prefix=''):
        self.p, self.st, self.tag, self.prefix = p, st, tag, prefix
        self.n = 0

    def tags(self, name):
        return frozenset([('p', self.prefix + name)]) if self.tag else NOTAGS

    def loc(self, name):
        return ('P', self.prefix + name)

    def term(self, name):
        return T('param', self.prefix + name)

    def arr(self, name, dims=None, typ='float', tags=None):
        t = self.term(name)
        if dims is not None:
            self.p.shapes[t] = tuple(dim(d) for d in dims)
        tg = self.tags(name) if tags is None else tags
        self.st.heap[self.loc(name)] = O('array', term=t, origin='param', typ=typ, tags=tg)
        return mkv([('l', self.loc(name))], t, tg)

    def num(self, name, ty='float', tags=None):
        return unk(self.term(name), self.tags(name) if tags is None else tags, ty)

    def rng(self, name='random_state'):
        t = self.term(name)
        self.st.heap[self.loc(name)] = O('rng', term=t, origin='caller', tags=self.tags(name))
        return mkv([('l', self.loc(name))], t, self.tags(name))

    def seed(self, name='random_state'):
        return self.num(name, 'int')

    def lst(self, name, elem, length=None, tags=None):
        t = self.term(name)
        tg = self.tags(name) if tags is None else tags
        self.st.heap[self.loc(name)] = O('list', elem=elem, length=length or T('len', t), term=t, origin='param', tags=tg)
        return mkv([('l', self.loc(name))], t, tg)

    def tup(self, name, items):
        t = T('tuple', *[v.term for v in items])
        self.st.heap[self.loc(name)] = O('tuple', items=tuple(items), term=t, origin='param', tags=self.tags(name))
        return mkv([('l', self.loc(name))], t, self.tags(name))

    def value(self, name, spec):
        """value from a textual domain"""
        k, _, a = spec.partition(':')
        if k == 'arr':
            return self.arr(name, a.split(',') if a else None)
        if k == 'iarr':
            return self.arr(name, a.split(',') if a else None, typ='int')
        if k in ('int', 'float', 'bool', 'str'):
            v = self.num(name, k)
            if k != 'str':
                self.p.shapes[v.term] = ()
            return v
        if k == 'strx':
            return mkv([('u', 'str!')], self.term(name), self.tags(name))
        if k == 'obj':
            return mkv([('u', None)], self.term(name), self.tags(name))
        if k == 'rng':
            return self.rng(name)
        if k == 'seed':
            return self.seed(name)
        if k == 'none':
            return const(None, self.tags(name))
        if k == 'c':
            return const(eval(a, {}), self.tags(name))
        if k == 'fn':
            return mkv([('u', 'callable')], self.term(name), self.tags(name))
        if k == 'state':            # a list of item indices
            e = unk(T('elem', self.term(name)), self.tags(name), 'int')
            return self.lst(name, e, dim(a) if a else None)
        if k == 'items':            # a list of given integers
            vs = tuple(const(int(x)) for x in a.split(',') if x)
            self.st.heap[self.loc(name)] = O('list', items=vs, term=T('tuple', *[v.term for v in vs]), origin='param', tags=self.tags(name))
            return mkv([('l', self.loc(name))], T('tuple', *[v.term for v in vs]), self.tags(name))
        if k == 'adj' and a:        # given lists of neighbours
            rows = [self.value('%s[%d]' % (name, i), 'items:' + x) for i, x in enumerate(a.split('/'))]
            self.st.heap[self.loc(name)] = O('list', items=tuple(rows), term=T('tuple', *[v.term for v in rows]), origin='param', tags=self.tags(name))
            return mkv([('l', self.loc(name))], T('tuple', *[v.term for v in rows]), self.tags(name))
        if k == 'adj':              # lists of neighbours
            e = unk(T('elem', T('elem', self.term(name))), self.tags(name), 'int')
            t = T('elem', self.term(name))
            l = ('P', self.prefix + name + '[]')
            self.st.heap[l] = O('list', elem=e, length=T('len', t), term=t, origin='param', tags=self.tags(name))
            return self.lst(name, mkv([('l', l)], t, self.tags(name)), dim('N'))
        if k == 'graph':
            t = self.term(name)
            if a:                   # a given graph, by lists of neighbours
                self.p.graphs[t] = tuple(tuple(int(y) for y in x.split(',') if y) for x in a.split('/'))
            else:
                self.p.graphs.pop(t, None)
            self.st.heap[self.loc(name)] = O('ext', term=t, origin='param', typ='graph', tags=self.tags(name), attrs={})
            return mkv([('l', self.loc(name))], t, self.tags(name))
        if k == 'poly':
            t = self.term(name)
            self.st.heap[self.loc(name)] = O('ext', term=t, origin='param', typ='poly1d', tags=self.tags(name), attrs={})
            return mkv([('l', self.loc(name))], t, self.tags(name))
        if k == 'eig':              # (eigenvalues, eigenvectors)
            v = self.arr(name + '.vals', a.split(',')[1:], tags=self.tags(name))
            w = self.arr(name + '.vecs', a.split(','), tags=self.tags(name))
            return self.tup(name, [v, w])
        if k == 'evalX':
            return self.tup(name, [self.value(name + '.eval', 'fn'), self.arr(name + '.X', a.split(',') if a else ['N', 'D'])])
        if k == 'pair':             # two domains
            x, y = a.split(';')
            return self.tup(name, [self.value(name + '.0', x), self.value(name + '.1', y)])
        raise ValueError(spec)


# ------------------------------------------------------------------ the public entry points
# name -> {argument: alternatives}; the first alternative is the usual one, 'default' leaves the argument out
RS = 'rng|seed'
FN = {}


def F(name, **args):
    FN[name] = args


X = 'dppy.exact_sampling.'
F(X + 'proj_dpp_sampler_kernel', kernel='arr:N,N', mode="c:'GS'|c:'Schur'|c:'Chol'", size='int|none', random_state=RS)
F(X + 'proj_dpp_sampler_kernel_Chol', K='arr:N,N', size='int|none', random_state=RS)
F(X + 'proj_dpp_sampler_kernel_GS', K='arr:N,N', size='int|none', random_state=RS)
F(X + 'proj_dpp_sampler_kernel_Schur', K='arr:N,N', size='int|none', random_state=RS)
F(X + 'dpp_sampler_generic_kernel', K='arr:N,N', random_state=RS)
F(X + 'dpp_eig_vecs_selector', ber_params='arr:R', eig_vecs='arr:N,R', random_state=RS)
F(X + 'proj_dpp_sampler_eig', eig_vecs='arr:N,R', mode="c:'GS'|c:'GS_bis'|c:'KuTa12'", size='int|none', random_state=RS)
F(X + 'proj_dpp_sampler_eig_GS', eig_vecs='arr:N,R', size='int|none', random_state=RS)
F(X + 'proj_dpp_sampler_eig_GS_bis', eig_vecs='arr:N,R', size='int|none', random_state=RS)
F(X + 'proj_dpp_sampler_eig_KuTa12', eig_vecs='arr:N,R', size='int|none', random_state=RS)
F(X + 'k_dpp_eig_vecs_selector', eig_vals='arr:R', eig_vecs='arr:N,R', size='int', E_poly='arr:R1,K1|none', random_state=RS)
F(X + 'elementary_symmetric_polynomials', eig_vals='arr:R', size='int')
VFXOPT = dict(desired_expected_size='float|none', rls_oversample_dppvfx='float', rls_oversample_bless='float', q_func='fn',
              nb_iter_bless='int', verbose='bool', max_iter='int')
ALPOPT = dict(desired_expected_size='float|none', rls_oversample_alphadpp='float', rls_oversample_bless='float', r_func='fn',
              nb_iter_bless='int', verbose='bool', max_iter='int')
KV = {k: v for k, v in VFXOPT.items() if k != 'desired_expected_size'}
KA = {k: v for k, v in ALPOPT.items() if k != 'desired_expected_size'}
KV.update(max_iter_size_rejection='int')
KA.update(max_iter_size_rejection='int', early_stop='bool')
IS = dict(intermediate_sample_info='none', X_data='arr:N,D', eval_L='fn', random_state=RS)
F(X + 'dpp_vfx_sampler', **IS, **VFXOPT)
F(X + 'alpha_dpp_sampler', **IS, **ALPOPT)
F(X + 'k_dpp_vfx_sampler', size='int', **IS, **KV)
F(X + 'alpha_k_dpp_sampler', size='int', **IS, **KA)

M = 'dppy.mcmc_sampling.'
F(M + 'dpp_sampler_mcmc', kernel='arr:N,N', mode="c:'AED'|c:'AD'|c:'E'", s_init='state|none|default', nb_iter='int', T_max='float|none',
  size='int|none|default', random_state=RS)
F(M + 'initialize_AED_sampler', kernel='arr:N,N', random_state=RS)
F(M + 'initialize_AD_and_E_sampler', kernel='arr:N,N', size='int|none', random_state=RS)
F(M + 'add_exchange_delete_sampler', kernel='arr:N,N', s_init='state|none', nb_iter='int', T_max='float|none', random_state=RS)
F(M + 'add_delete_sampler', kernel='arr:N,N', s_init='state', nb_iter='int', T_max='float|none', random_state=RS)
F(M + 'basis_exchange_sampler', kernel='arr:N,N', s_init='state', nb_iter='int', T_max='float|none', random_state=RS)
F(M + 'zonotope_sampler', A_zono='arr:R,N', lin_obj='arr:N|default', x_0='arr:R|default', nb_iter='int', T_max='float|none', random_state=RS)
F(M + 'extract_basis', y_sol='arr:N', eps='float')

I = 'dppy.intermediate_sampling.'
F('dppy.bless.bless', X_data='arr:N,D', eval_L='fn', lam_final='float', rls_oversample_param='float', random_state=RS,
  nb_iter_bless='int|none', verbose='bool')
F('dppy.bless.bless_size', X_data='arr:N,D', eval_L='fn', size_final='float', rls_oversample_param='float', random_state=RS,
  nb_iter_bless='int|none', verbose='bool')
F(I + 'estimate_rls_from_embedded_points', eigvec='arr:R,R', eigvals='arr:R', B_bar_T='arr:R,N', diag_L='arr:N', diag_L_hat='arr:N', alpha_star='float')
F(I + 'vfx_sampling_precompute_constants', X_data='arr:N,D', eval_L='fn', rng='rng', desired_expected_size='float|none',
  rls_oversample_dppvfx='float', rls_oversample_bless='float', nb_iter_bless='int|none', verbose='bool')
F(I + 'alpha_dpp_sampling_precompute_constants', X_data='arr:N,D', eval_L='fn', rng='rng', desired_expected_size='float|none',
  rls_oversample_alphadpp='float', rls_oversample_bless='float', nb_iter_bless='int|none', verbose='bool')

R = 'dppy.random_matrices.'
BETA = 'float|c:1|c:2|c:4'
F(R + 'hermite_sampler_full', N='int', beta=BETA, random_state=RS)
F(R + 'semi_circle_law', x='arr:N', R='float')
F(R + 'mu_ref_normal_sampler_tridiag', loc='float', scale='float', beta='float', size='int', random_state=RS)
F(R + 'laguerre_sampler_full', M='int', N='int', beta=BETA, random_state=RS)
F(R + 'marcenko_pastur_law', x='arr:N', M='int', N='int', sigma='float')
F(R + 'mu_ref_gamma_sampler_tridiag', shape='float', scale='float', beta='float', size='int', random_state=RS)
F(R + 'jacobi_sampler_full', M_1='int', M_2='int', N='int', beta=BETA, random_state=RS)
F(R + 'wachter_law', x='arr:N', M_1='int', M_2='int', N='int')
F(R + 'mu_ref_beta_sampler_tridiag', a='float', b='float', beta='float', size='int', random_state=RS)
F(R + 'circular_sampler_full', N='int', beta=BETA, haar_mode="c:'Hermite'|c:'QR'", random_state=RS)
F(R + 'mu_ref_unif_unit_circle_sampler_quindiag', beta='int', size='int', random_state=RS)
F(R + 'ginibre_sampler_full', N='int', random_state=RS)

U = 'dppy.exotic_dpps_core.'
F(U + 'ust_sampler_wilson', list_of_neighbors='adj', root='int|none', random_state=RS)
F(U + 'ust_sampler_aldous_broder', list_of_neighbors='adj', root='int|none', random_state=RS)
F(U + 'uniform_permutation', N='int', random_state=RS)
F(U + 'RSK', sequence='arr:N|state')
F(U + 'xy_young_ru', young_diag='iarr:N')
F(U + 'limit_shape', x='arr:N')

P = 'dppy.beta_ensemble_polynomial_potential_core.'
F(P + 'shift_pol', P='poly', x0='float')
F(P + 'log_pdf_convex_quartic', x='float', P='poly')
F(P + 'find_mode_convex_quartic', P='poly')
F(P + 'find_b_a_convex_quartic', P='poly', mode='float')
F(P + 'log_pdf_convex_gen_gamma', x='float', shape='float', P='poly')
F(P + 'find_mode_convex_gen_gamma', shape='float', P='poly')
F(P + 'find_a_b_convex_gen_gamma', shape='float', P='poly', mode='float')
F(P + 'trunc_gaussian_sampler', b='float', mu='float', var='float', random_state=RS)
F(P + 'gen_gamma_alpha_lt_1_sampler', shape='float', P='poly', random_state=RS)
F(P + 'sampler_exact_convex_quartic', P='poly', shape='float|none', random_state=RS)
F(P + 'sampler_mala', x='float', V='poly', sigma='float', nb_steps='int', random_state=RS)
F(P + 'polynomial_in_negative_log_conditional_a_coef', i='int', a='arr:N', b='arr:N', V='poly')
F(P + 'polynomial_in_negative_log_conditional_b_coef', i='int', a='arr:N', b='arr:N', V='poly')
F(P + 'equilibrium_x2_x4', g_2='float', g_4='float')
F(P + 'cdf_equilibrium_x2_x4', g_2='float', g_4='float')
F(P + 'equilibrium_x2m', m='int', g_2m='float')
F(P + 'cdf_equilibrium_x2m', m='int', g_2m='float')
F(P + 'equilibrium_ClItKr10')

J = 'dppy.multivariate_jacobi_ope.'
F(J + 'compute_ordering', N='int', d='int')
F(J + 'compute_norms_1D_polynomials', jacobi_params='arr:D,2', deg_max='int')
F(J + 'compute_rejection_bounds', jacobi_params='arr:D,2', ordering='iarr:N,D', log_scale='bool')
F(J + 'compute_degrees_1D_polynomials', max_degrees='iarr:D')

Z = 'dppy.utils.'
F(Z + 'check_random_state', seed=RS)
F(Z + 'inner1d', arr1='arr:N,D', arr2='arr:N,D|none', axis='c:0|c:1')
F(Z + 'det_ST', array='arr:N,N', S='state', T='state|none')
for _n in ('is_symmetric', 'is_square', 'is_full_row_rank', 'is_in_01', 'is_geq_0', 'is_equal_to_O_or_1'):
    F(Z + _n, array='arr:N|none' if _n in ('is_in_01', 'is_geq_0', 'is_equal_to_O_or_1') else 'arr:N,N|none' if _n != 'is_square' else 'arr:N,N')
F(Z + 'is_projection', array='arr:N,N|none')
F(Z + 'is_orthonormal_columns', array='arr:N,R|none')
F(Z + 'stable_filter', eigenvec='arr:N,N', eigenval='arr:N')
F(Z + 'stable_invert_root', eigenvec='arr:N,N', eigenval='arr:N')
F(Z + 'evaluate_L_diagonal', eval_L='fn', X='arr:N,D')
F(Z + 'example_eval_L_linear', X='arr:N,D', Y='arr:N2,D|none')
F(Z + 'example_eval_L_polynomial', X='arr:N,D', Y='arr:N2,D|none', p='int')
F(Z + 'example_eval_L_min_kern', X='arr:N,1', Y='arr:N2,1|none')
F(Z + 'get_progress_bar', total='int', disable='bool')

# classes: name -> ({constructor argument: alternatives}, {method: {argument: alternatives}})
CL = {}


def K(name, ctor, **methods):
    CL[name] = (ctor, methods)


E_ = 'dppy.exotic_dpps.'
NORM = dict(normalization='bool')
K(E_ + 'CarriesProcess', dict(base='int'), sample=dict(size='int', random_state=RS), flush_samples={}, plot=dict(vs_bernoullis='bool', random_state=RS), __str__={})
K(E_ + 'DescentProcess', {}, sample=dict(size='int', random_state=RS), flush_samples={}, plot=dict(vs_bernoullis='bool', random_state=RS), __str__={})
K(E_ + 'VirtualDescentProcess', dict(x_0='float'), sample=dict(size='int', random_state=RS), flush_samples={}, plot=dict(vs_bernoullis='bool', random_state=RS), __str__={})
K(E_ + 'PoissonizedPlancherel', dict(theta='float'), sample=dict(random_state=RS), plot=dict(title='str'), plot_diagram=NORM, __str__={})
K(E_ + 'UST', dict(graph='graph'),
  sample=dict(mode="c:'Wilson'|c:'Aldous-Broder'|c:'GS'|c:'GS_bis'|c:'KuTa12'|c:'Schur'|c:'Chol'", root='int|none', random_state=RS),
  flush_samples={}, compute_kernel={}, compute_kernel_eig_vecs={}, plot=dict(title='str'), plot_graph=dict(title='str'), plot_kernel=dict(title='str'), __str__={})
E_ = 'dppy.beta_ensembles.'
PTS = dict(points='arr:N')
K(E_ + 'HermiteEnsemble', dict(beta='float'), sample_full_model=dict(size_N='int', random_state=RS),
  sample_banded_model=dict(loc='float', scale='float', size_N='int', random_state=RS), normalize_points=PTS, plot=NORM, hist=NORM, flush_samples={}, __str__={})
K(E_ + 'LaguerreEnsemble', dict(beta='float'), sample_full_model=dict(size_N='int', size_M='int', random_state=RS),
  sample_banded_model=dict(shape='float', scale='float', size_N='int', size_M='int|none', random_state=RS), normalize_points=PTS, plot=NORM, hist=NORM, flush_samples={}, __str__={})
K(E_ + 'JacobiEnsemble', dict(beta='float'), sample_full_model=dict(size_N='int', size_M1='int', size_M2='int', random_state=RS),
  sample_banded_model=dict(a='float', b='float', size_N='int', size_M1='int|none', size_M2='int|none', random_state=RS), normalize_points=PTS, plot=NORM, hist=NORM, flush_samples={}, __str__={})
K(E_ + 'CircularEnsemble', dict(beta='int'), sample_full_model=dict(size_N='int', haar_mode="c:'Hermite'|c:'QR'", random_state=RS),
  sample_banded_model=dict(size_N='int', random_state=RS), normalize_points=PTS, plot=NORM, hist=NORM, flush_samples={}, __str__={})
K(E_ + 'GinibreEnsemble', dict(beta='c:2'), sample_full_model=dict(size_N='int', random_state=RS), sample_banded_model={},
  normalize_points=PTS, plot=NORM, hist=NORM, flush_samples={}, __str__={})
K('dppy.beta_ensemble_polynomial_potential.BetaEnsemblePolynomialPotential', dict(beta='float', potential_V='poly', name='default'),
  sample_mcmc=dict(N='int', nb_gibbs_passes='int', sample_exact_cond='bool', nb_mala_steps='int', return_chain_of_eig_vals='bool',
                   return_chain_of_lambda_max='bool', random_state=RS), hist=dict(sampl='arr:N', save_file_name='c:False'), rescale_largest_eig_val=dict(lambda_max='float'), __str__={})
K('dppy.multivariate_jacobi_ope.MultivariateJacobiOPE', dict(N='int', jacobi_params='arr:D,2'),
  sample=dict(nb_trials_max='int', random_state=RS, tridiag_1D='bool'), sample_chain_rule_proposal=dict(nb_trials_max='int', random_state=RS),
  eval_w=dict(X='arr:Q,D'), eval_multiD_polynomials=dict(X='arr:Q,D'), K=dict(X='arr:Q,D', Y='arr:Q,D|none', eval_pointwise='bool'),
  plot=dict(sample='arr:N,D', weighted='str'))
K('dppy.beta_ensemble_polynomial_potential_core.TracyWidom', {}, cdf=dict(x='float', quad_order='int'), kernel=dict(s='arr:N,N'), change_of_variable=dict(s='arr:N'))

REPS = {'K': ('correlation', 'arr:N,N'), 'K_eig_dec': ('correlation', 'eig:N,R'), 'A_zono': ('correlation', 'arr:R,N'),
        'L': ('likelihood', 'arr:N,N'), 'L_eig_dec': ('likelihood', 'eig:N,R'), 'L_gram_factor': ('likelihood', 'arr:R,N'),
        'L_eval_X_data': ('likelihood', 'evalX')}
FD = 'dppy.finite_dpps.FiniteDPP'
EXACT_OPTS = {'vfx': {k: v for k, v in VFXOPT.items()}, 'alpha': {k: v for k, v in ALPOPT.items()}}
KDPP_OPTS = {'vfx': KV, 'alpha': KA}
FD_METHODS = {
    'sample_exact': dict(mode="c:'GS'|c:'GS_bis'|c:'KuTa12'|c:'Chol'|c:'Schur'|c:'vfx'|c:'alpha'", random_state=RS),
    'sample_exact_k_dpp': dict(size='int', mode="c:'GS'|c:'GS_bis'|c:'KuTa12'|c:'Chol'|c:'Schur'|c:'vfx'|c:'alpha'", random_state=RS),
    'sample_mcmc': dict(mode="c:'AED'|c:'AD'|c:'E'|c:'zonotope'", s_init='state|default', nb_iter='int', T_max='float|none', size='int', random_state=RS),
    'sample_mcmc_k_dpp': dict(size='int', mode='default', nb_iter='int', random_state=RS),
    'compute_K': {}, 'compute_L': {}, 'flush_samples': {}, 'info': {}, '__str__': {},
    'plot_kernel': dict(kernel_type="c:'correlation'|c:'likelihood'", save_path='str'),
}


def alternatives(args, full=False, fixed=None, rs=None):
    """assignments argument -> domain: the usual one, then each other alternative on its own (or the full product)"""
    names = list(args)
    alts = {}
    for n in names:
        a = args[n].split('|')
        if fixed and n in fixed:
            a = fixed[n] if isinstance(fixed[n], list) else [fixed[n]]
        if rs and args[n] == RS:
            a = [rs]
        alts[n] = a
    if full:
        for c in itertools.product(*[alts[n] for n in names]):
            yield dict(zip(names, c))
        return
    base = {n: alts[n][0] for n in names}
    yield dict(base)
    for n in names:
        for a in alts[n][1:]:
            d = dict(base)
            d[n] = a
            yield d


# entries with too many paths for the finest partition
HEAVY = {'dppy.beta_ensemble_polynomial_potential.BetaEnsemblePolynomialPotential.sample_mcmc'}


class Run:
    """the analysis of one call: final states, raised exceptions, events"""
    __slots__ = ('label', 'rets', 'raises', 'events', 'fail', 'entry', 'spec', 'binder', 'recv', 'st0', 'group', 'coarse')


class Driver:
    def __init__(self, repo='/repo', sources=None, budget=400000, max_states=24, prog=None, **kw):
        self.p = prog or Program(repo, 'dppy', sources=sources, budget=budget, max_states=max_states, **kw)
        self.missing = set()
        self.failed = {}
        self.objs = {}
        self.nruns = 0
        self.cap = None         # seconds per call

    def reset(self):
        self.p.events = []
        self.p._evseen = set()
        self.p.guards = ()
        self.p.steps = 0
        self.p.deadline = time.time() + self.cap if self.cap else None

    def spec_str(self, spec):
        return ', '.join('%s=%s' % (k, v) for k, v in spec.items() if v != 'default')

    def call(self, entry, f, spec, st, pos=(), label=None, recv=None, prefix='', keep=False):
        r = Run()
        r.entry, r.spec, r.label = entry, spec, label or '%s(%s)' % (entry, self.spec_str(spec))
        r.fail, r.rets, r.raises, r.recv, r.st0, r.group = None, [], [], recv, st, None
        self.nruns += 1
        if not keep:
            self.reset()
        p = self.p
        old = p.max_states, p.loop_states, p.budget
        nev, levels = len(p.events), [(p.max_states, p.loop_states, p.budget), (4, 2, p.budget), (2, 2, 2 * p.budget)]
        if 'fork_' in p.hooks:          # histories are enumerated: no coarser partition
            levels = [(p.max_states, p.loop_states, 40 * p.budget)]
        st0 = st
        try:
            for i, (ms, ls, budget) in enumerate(levels):
                if i == 0 and entry in HEAVY:
                    continue
                p.max_states, p.loop_states, p.budget = ms, ls, budget
                st = st0.clone()
                b = B(p, st, prefix=prefix)
                r.binder = b
                r.fail, kw = None, {}
                try:
                    for k, d in spec.items():
                        if d != 'default':
                            kw[k] = d if isinstance(d, V) else b.value(k, d)
                    r.rets, r.raises = p.run_call(f, list(pos), kw, st, prefix + entry)
                    break
                except Giveup as e:
                    # too many paths: the same call again with a coarser partition of the paths
                    r.fail = 'analysis budget exceeded: %s' % (e,)
                    if i + 1 < len(levels):
                        if keep:
                            del p.events[nev:]
                            p.steps, p.deadline = 0, time.time() + self.cap if self.cap else None
                        else:
                            self.reset()
        except RecursionError:
            r.fail = 'analysis recursion limit'
        except Exception as e:           # a construct the interpreter does not model
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r.fail = 'not analysed: %s: %s (%s:%s) at %s' % (type(e).__name__, e, tb.filename.rsplit('/', 1)[-1], tb.lineno, self.p.where(self.p.curnode) if getattr(self.p, 'curnode', None) is not None else '?')
        finally:
            p.max_states, p.loop_states, p.budget = old
        r.coarse = i
        if r.fail:
            self.failed[r.label] = r.fail
            r.rets, r.raises = [], []
        r.events = self.p.events
        return r

    # -------------------------------------------------------------- functions
    def functions(self, only=None, full=False, rs=None, fixed=None):
        for name, args in FN.items():
            if only and not only(name):
                continue
            atom = self.p.find_fn(name)
            if atom is None:
                self.missing.add(name)
                continue
            f = mkv([atom], T('fn', name))
            for spec in alternatives(args, full, fixed, rs):
                yield self.call(name, f, spec, self.p.start())

    # -------------------------------------------------------------- objects
    def construct(self, cname, spec, pos=(), st=None, prefix='', keep=False):
        cls = self.p.classes.get(cname)
        if cls is None:
            self.missing.add(cname)
            return None
        st = st or self.p.start()
        return self.call(cname, mkv([('cls', cls)], T('class', cname)), spec, st, pos=pos, prefix=prefix, keep=keep)

    def fd_spec(self, rep, projection=False, kernel_type=None):
        kt, dom = REPS[rep]
        return {'kernel_type': 'c:%r' % (kernel_type or kt), 'projection': 'c:%r' % projection, rep: dom}

    def receivers(self, only=None, fd=True, rest=True, proj=(False, True), reps=None):
        """constructed objects: (class name, description, spec, [(state, receiver)])"""
        if rest:
            for cname, (ctor, methods) in CL.items():
                if only and not only(cname):
                    continue
                if self.p.classes.get(cname) is None:
                    self.missing.add(cname)
                    continue
                for spec in alternatives(ctor):
                    r = self.construct(cname, spec)
                    yield cname, '%s(%s)' % (cname.rsplit('.', 1)[-1], self.spec_str(spec)), spec, r
        if fd and (not only or only(FD)):
            if self.p.classes.get(FD) is None:
                self.missing.add(FD)
                return
            for rep in REPS:
                if reps and rep not in reps:
                    continue
                for pr in proj:
                    spec = self.fd_spec(rep, pr)
                    r = self.construct(FD, spec)
                    yield FD, 'FiniteDPP(%s, projection=%s, %s)' % (REPS[rep][0], pr, rep), spec, r

    def methods(self, cname):
        return FD_METHODS if cname == FD else CL[cname][1]

    def method_specs(self, cname, m, full=False, rs=None, opts=True):
        args = self.methods(cname).get(m)
        if args is None:
            return
        for spec in alternatives(args, full, None, rs):
            if cname == FD and opts and m in ('sample_exact', 'sample_exact_k_dpp'):
                mode = eval(spec['mode'][2:])
                o = (EXACT_OPTS if m == 'sample_exact' else KDPP_OPTS).get(mode)
                if o:
                    for s2 in alternatives(o):
                        d = dict(spec)
                        d.update(s2)
                        yield d
                    continue
            if cname == FD and m == 'sample_mcmc' and 'zonotope' in spec['mode']:
                d = {k: v for k, v in spec.items() if k not in ('s_init', 'size')}
                d.update(lin_obj='default', x_0='default')
                yield d
                d = dict(d)
                d.update(lin_obj='arr:N', x_0='arr:R')
                yield d
                continue
            yield spec

    def invoke(self, cname, m, recv, st, spec, label='', prefix='', keep=False):
        a = self.p.find_method(cname + '.' + m)
        if a is None:
            self.missing.add(cname + '.' + m)
            return None
        # bound method through attribute access keeps overriding and descriptors
        static = a[0] == 'f' and getattr(a[1], 'dkind', None) == 'static'
        f = mkv([a if static else ('bm', recv, a)], T('attr', recv.term, m))
        return self.call(cname + '.' + m, f, spec, st, label=label, recv=recv, prefix=prefix, keep=keep)
