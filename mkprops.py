#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

D = 'dppy/'
ALLS = [D + f for f in ('finite_dpps.py', 'exact_sampling.py', 'mcmc_sampling.py', 'intermediate_sampling.py',
                        'bless.py', 'exotic_dpps.py', 'exotic_dpps_core.py', 'beta_ensembles.py', 'random_matrices.py',
                        'beta_ensemble_polynomial_potential.py', 'beta_ensemble_polynomial_potential_core.py',
                        'multivariate_jacobi_ope.py', 'utils.py')]

p('C01', 'Seeded sampling draws only from the caller\'s random_state',
  'When a caller passes a random_state (an integer or a numpy RandomState) to any public sampling function or method, every random variate consumed while serving that call comes from that generator, on every path. No draw comes from numpy\'s global generator, the standard library, a freshly or constantly seeded generator, or any other source that the caller did not supply. The value returned does not depend on clocks, hashes, object identities or set iteration order either (a user-supplied time limit excepted).',
  ['inputs', 'configurations', 'histories'],
  'Every public sampler and initializer, every sampling mode and kernel representation, both seed types, every control-flow path through it and its helpers.',
  'Tests fix a seed for a few configurations and mostly compare distributions; a stray draw from the global generator in one mode, one rejection branch or one rarely taken representation passes them all.',
  ALLS, [('check_random_state is called once at the entry and its result is handed to every helper', 'every sampler, e.g. dppy/finite_dpps.py FiniteDPP.sample_exact'),
         ('rng passed positionally or as random_state=', 'dppy/exact_sampling.py, dppy/intermediate_sampling.py, dppy/bless.py')])

p('C02', 'One random stream per call: never re-seeded, restarted or replayed',
  'Serving one public sampling call with an integer seed creates exactly one generator from that seed, and that generator is then shared by all stages of the call. No stage re-seeds a generator, rewinds its state, or starts a second generator from the same seed, so no two stages or loop iterations replay the same variates. A generator object supplied by the caller is advanced but never re-seeded or replaced.',
  ['inputs', 'histories'],
  'All public samplers, all modes, integer seeds and generator objects, all paths and loop iterations.',
  'Replayed variates leave each single sample plausible and reproducible; only the dependence between stages or iterations is wrong, which the suite (single seeded runs, marginal chi-square tests) does not look at.',
  ALLS, [('check_random_state returns an existing RandomState unchanged', 'dppy/utils.py check_random_state'),
         ('inner calls receive rng, not the original seed', 'all samplers')])

p('C03', 'Library calls leave process-wide state alone',
  'Importing the package, building an object, sampling, computing kernels or plotting never changes process-wide settings: numpy floating point error handling, print options, warning filters, numpy\'s or Python\'s global random seed, matplotlib defaults, environment variables, recursion limits. No call rebinds or mutates module-level objects of the package either. A temporary change is allowed only if it is undone on every exit, including exceptional ones.',
  ['histories', 'inputs'],
  'Every public function and method and every module import, every path including the ones that end in an exception.',
  'A leaked setting breaks unrelated code later in the process, in another test or program; each test only looks at its own call.',
  ALLS, [('no np.seterr/np.random.seed/warnings.simplefilter/global statement outside scoped context managers', 'whole package')])

p('C04', 'Objects are isolated from each other',
  'Two objects built from this package never share mutable state: changing, sampling from or flushing one object has no effect on the samples, caches or parameters of another. In particular no mutable default argument, class attribute or module-level container is reachable from an object\'s mutable attributes and then modified through it.',
  ['histories', 'programs'],
  'All classes, all constructors and methods, all interleavings of calls on several instances.',
  'Tests build one object at a time; sharing shows only with two live objects and a particular interleaving of calls.',
  [D + f for f in ('finite_dpps.py', 'exotic_dpps.py', 'beta_ensembles.py', 'multivariate_jacobi_ope.py', 'beta_ensemble_polynomial_potential.py', 'beta_ensemble_polynomial_potential_core.py')],
  [('sample lists, params dictionaries and caches are created in __init__', 'constructors of FiniteDPP, BetaEnsemble, Descent, UST, PoissonizedPlancherel, TracyWidom')])

p('C05', 'Arguments passed by the caller are never modified',
  'Constructing an object, sampling, validating, or evaluating any public function never writes into an array, list, dictionary, polynomial or graph that the caller passed in: kernels, eigen-decompositions, feature matrices, data sets, initial states, points, potentials, neighbour lists and option dictionaries are the same after the call as before. In particular an object built from a kernel does not alter the caller\'s kernel by sampling from it, and a Markov chain does not alter the initial state it was given.',
  ['inputs', 'histories'],
  'Every public function and method, every mutable argument, every path, including writes through views, aliases, attributes that hold the caller\'s array, and out= or in-place operators in helpers.',
  'A test that passes a fresh array and looks only at the result cannot see the array being overwritten; the damage shows when the caller reuses it, for example for a second sample.',
  ALLS, [('samplers work on .copy() of kernel, eigenvectors and current state', 'dppy/exact_sampling.py, dppy/mcmc_sampling.py'),
         ('validators return the array they are given without touching it', 'dppy/utils.py')])

p('C06', 'Sample history: one record per successful call, none on failure',
  'Each successful sampling call on an object that keeps a list of samples appends exactly one entry to it, at the end, and where the call returns the sample it returns the recorded object (or the last state of the recorded chain). A call that raises records nothing, earlier entries are never removed, replaced or reordered by sampling, and flushing leaves the list empty. Parallel records kept by one object stay in step with each other.',
  ['histories', 'inputs'],
  'All sampling methods of FiniteDPP, the beta ensembles, the descent processes, UST and PoissonizedPlancherel; every mode, every kernel representation, repeated calls, failing calls.',
  'Tests look at len(list_of_samples) for few configurations; a double or missing record in one delegation path (kernel conversion and retry) is invisible to them.',
  [D + f for f in ('finite_dpps.py', 'exotic_dpps.py', 'beta_ensembles.py')],
  [('list_of_samples.append at the single exit of the method; conversions delegate to the same method and return its result', 'dppy/finite_dpps.py sample_exact, sample_exact_k_dpp, sample_mcmc'),
   ('list_of_samples.append(sampl)', 'dppy/beta_ensembles.py sample_*_model, dppy/exotic_dpps.py sample')])

p('C07', 'Displaying or describing an object never changes its samples',
  'Plotting, histograms, normalization, info and string conversion leave the recorded samples of the object exactly as they were: no entry is added, removed or rescaled in place, however often and in whatever order they are called. Normalizing points returns normalized values without altering the array it was given.',
  ['histories', 'inputs'],
  'All plot*, hist, normalize_points, info and __str__ methods, all normalization flags and sampling modes.',
  'The plot tests only check that plotting does not crash; a sample rescaled in place is only noticed when it is read or plotted again.',
  [D + f for f in ('finite_dpps.py', 'exotic_dpps.py', 'beta_ensembles.py', 'multivariate_jacobi_ope.py', 'beta_ensemble_polynomial_potential.py')],
  [('display helpers copy the stored sample before normalizing it', 'dppy/beta_ensembles.py *Ensemble.__display_and_normalization'),
   ('PoissonizedPlancherel.plot_diagram copies the sample', 'dppy/exotic_dpps.py')])

p('C08', 'Unknown modes are rejected with ValueError, documented ones are accepted',
  'Every public entry point that selects an algorithm, representation or parameter case by name or discrete value (sampling mode, kernel type, matrix-model beta, haar mode) raises ValueError for a value it does not know, on every path, instead of returning a value, falling through to another algorithm, or failing with an unrelated error. Every documented value is accepted and dispatched to its algorithm.',
  ['inputs', 'configurations'],
  'All string and discrete selectors of the public API and all values outside the documented set; all kernel representations.',
  'A test would have to try each invalid value on each representation and state; the suite tries a handful of constructor keys.',
  [D + f for f in ('finite_dpps.py', 'exact_sampling.py', 'mcmc_sampling.py', 'exotic_dpps.py', 'random_matrices.py')],
  [('if/elif chains that end in raise ValueError', 'dpp_sampler_mcmc, proj_dpp_sampler_kernel, proj_dpp_sampler_eig, FiniteDPP.sample_*, UST.sample, *_sampler_full')])

p('C09', 'No path fails by accident',
  'No reachable code path of the package fails because of its own inconsistency: an undefined or unassigned name, a missing attribute of the object or of a library module, a call whose arguments do not fit the callee, or a malformed error message. Error branches raise the exception they were written to raise, with a message.',
  ['inputs', 'configurations', 'fault_sequences'],
  'All functions, methods, branches and exception handlers of the package, with the installed library versions.',
  'Python only resolves names, attributes and signatures when a line runs; rarely taken branches and error branches are never run by the suite.',
  ALLS, [('name binding, attribute existence and call signatures across modules', 'whole package')])

p('C10', 'Fixed-size sampling returns exactly the requested number of items',
  'Every k-DPP sampler and every projection-kernel sampler called with a size returns a sample with exactly that many items, or raises; called without a size, a projection sampler returns as many items as the rank of its kernel. This holds for every mode, kernel representation and internal rejection history; a candidate of another size is never returned.',
  ['inputs', 'histories', 'configurations'],
  'All sizes k, all modes, all kernel representations, all rejection histories, all iterations of the selection loops.',
  'Tests draw a few samples at one k and look at their statistics; the failing case may need a particular rejection history, the smallest or largest size, or a rarely used mode.',
  [D + 'finite_dpps.py', D + 'exact_sampling.py', D + 'mcmc_sampling.py'],
  [('sampl = np.zeros(size, dtype=int) filled by a loop over range(size)', 'proj_dpp_sampler_*'),
   ('len(sampl) == size guards the rejection loops, for/else raises', 'k_dpp_vfx_sampler, alpha_k_dpp_sampler'),
   ('k_dpp_eig_vecs_selector returns exactly size columns', 'dppy/exact_sampling.py')])

p('C11', 'A sample is a set: no item is selected twice',
  'Exact samplers and Markov chain moves of finite DPPs never put an item into a sample that already contains it, and only ever select indices of the ground set. Once selected, an item is excluded from all later draws of the same call; a move proposes to insert only items outside of the current state.',
  ['inputs', 'histories'],
  'All exact samplers and MCMC samplers of finite DPPs, all iterations, all random outcomes, including degenerate or badly conditioned kernels.',
  'With an exact kernel a repeated item has probability about zero, so sampling in a test almost never shows it; with rounding errors or unusual kernels it happens.',
  [D + 'exact_sampling.py', D + 'mcmc_sampling.py', D + 'intermediate_sampling.py'],
  [('availability mask avail[j] = False and draws from ground_set[avail]', 'proj_dpp_sampler_kernel_GS, _Schur, proj_dpp_sampler_eig_GS, _GS_bis'),
   ('permutation with swap into position j', 'proj_dpp_sampler_kernel_Chol'),
   ('np.delete(ground_set, S0)', 'add_exchange_delete_sampler, basis_exchange_sampler')])

p('C12', 'A Markov chain records one coherent state per iteration',
  'Every finite-DPP Markov chain returns its initial state followed by exactly one state per iteration, at most nb_iter states in total, ends early only once a requested time limit is exceeded, and then returns only states that were really visited. The recorded state is the current state of that iteration, is never modified afterwards by later moves, and the current state is only replaced by an accepted proposal, together with its determinant and size.',
  ['histories', 'inputs', 'schedules'],
  'All chains (add-exchange-delete, add-delete, exchange, zonotope), all accept/reject histories, all numbers of iterations and time limits.',
  'Tests look at marginal statistics of long chains (and the sampler tests cannot run in this environment); a stale determinant or an aliased state biases the chain without any visible error.',
  [D + 'mcmc_sampling.py', D + 'finite_dpps.py'],
  [('S1 = S0.copy(); chain.append(S1) / chain.append(S0); S0, det_S0 = S1, det_S1', 'dppy/mcmc_sampling.py *_sampler'),
   ('T_max test at the end of each iteration', 'dppy/mcmc_sampling.py')])

p('C13', 'Markov chain moves satisfy detailed balance',
  'For the add-exchange-delete, add-delete and exchange chains, move selection, proposal and acceptance probabilities together satisfy detailed balance with respect to the law proportional to the determinant of the selected submatrix: the probability of proposing and accepting a move, times the weight of the state, equals the same product for the reverse move. The acceptance test compares a fresh uniform variate with that ratio of the proposed over the current determinant, for every state size.',
  ['inputs', 'histories'],
  'All states, state sizes s in 1..N-1, ground set sizes N, kernels and moves.',
  'A wrong correction factor leaves a chain that runs and mixes to a slightly different law; detecting that by sampling needs far more samples than a test draws.',
  [D + 'mcmc_sampling.py'],
  [('acceptance ratios det_S1/det_S0 times (s+1)/(N-s), 1, s/(N-s+1) and move thresholds in the proportion s/N', 'add_exchange_delete_sampler'),
   ('acceptance ratio det_S1/det_S0', 'add_delete_sampler, basis_exchange_sampler')])

p('C14', 'Cached intermediate results are only reused for the request they fit',
  'A result cached on an object during an earlier call (symmetric polynomials, rejection-sampling constants, quadrature nodes, kernels) is reused only if it was computed for the same request: the same algorithm, the same quadrature order or expected size, and at least the same sample size as asked for now. Arrays kept on the object for later calls are not overwritten by the samplers they are passed to. The outcome of a call therefore does not depend on which other valid calls were made before on the same object, beyond the random stream.',
  ['histories'],
  'All sequences of public calls on one object: any order of modes, sizes, DPP and k-DPP calls, quadrature orders.',
  'Tests build a new object for each check, so that the second, differently parametrized call on a warm cache never happens.',
  [D + 'finite_dpps.py', D + 'exact_sampling.py', D + 'beta_ensemble_polynomial_potential_core.py', D + 'exotic_dpps.py'],
  [('E_poly recomputed when a larger size is requested', 'FiniteDPP.sample_exact_k_dpp'),
   ('intermediate_sample_info checked against the requested size', 'k_dpp_vfx_sampler, alpha_k_dpp_sampler'),
   ('quad_order compared before the quadrature is reused', 'TracyWidom.cdf')])

p('C15', 'All representations of a finite DPP describe the same process',
  'Whichever representation a DPP was built from, every conversion between correlation and likelihood kernels uses K-eigenvalue = l/(1+l) and L-eigenvalue = k/(1-k) with the eigenvectors of the same matrix, and rebuilds kernels as U diag(eigenvalues) U^T. Samplers are always handed the kind of kernel or spectrum they are defined for: correlation eigenvalues for Bernoulli selection, likelihood eigenvalues for k-DPP selection, likelihood kernels (or correlation projection kernels for exchange) for Markov chains.',
  ['inputs', 'configurations', 'histories'],
  'All representations (K, K_eig_dec, A_zono, L, L_eig_dec, L_gram_factor, L_eval_X_data), all conversion sites and all sampling methods, in any order of calls.',
  'The tests convert a few kernels once; a wrong formula or kernel at one of the many conversion sites gives valid looking samples of another DPP.',
  [D + 'finite_dpps.py', D + 'exact_sampling.py'],
  [('compute_K, compute_L and the conversion branches of sample_exact and sample_exact_k_dpp', 'dppy/finite_dpps.py')])

p('C24', 'Matrix models, densities, kernels and other documented formulas are computed as documented, for all parameters',
  'Each building block that the documentation gives as a formula returns the value of that formula for every admissible argument, not only for the default or tested ones. (a) dppy.random_matrices: the full and tridiagonal matrix models (Hermite, Laguerre, Jacobi for beta = 1, 2, 4, circular with QR or Hermite Haar mode, Ginibre; mu_ref_normal/gamma/beta_sampler_tridiag for all parameters and sizes, and the quindiagonal model of the circular ensemble) as functions of the variates they draw, and the semi-circle, Marcenko-Pastur and Wachter densities. (b) dppy.beta_ensemble_polynomial_potential_core: the polynomials of the negative log-conditionals of the coefficients a_i and b_i for every potential of degree at most 6 and every position i, shift_pol, log-densities and modes of the convex quartic and generalised gamma targets, equilibrium densities, their supports and cumulative distribution functions, and the kernel, quadrature and Fredholm determinant of the Tracy-Widom distribution. (c) dppy.multivariate_jacobi_ope: the ordering of the multi-indices, norms of the polynomials, rejection bounds, eval_w, eval_multiD_polynomials and the four forms of K, in every dimension and for parameters with and without -1/2 entries. (d) limit_shape, xy_young_ru and the Bernoulli parameters of the exotic processes; elementary_symmetric_polynomials and dpp_eig_vecs_selector; inner1d, det_ST and the example likelihood functions of dppy.utils.',
  ['inputs', 'configurations'],
  'All arguments, sizes, dimensions and values of beta of the functions listed, on every path through them.',
  'The tests evaluate a few of these functions, at one set of parameters, up to large statistical tolerances; an error that shows up for unequal parameters, at the boundary between regimes, or in a coefficient that vanishes at the defaults is not seen.',
  [D + 'random_matrices.py', D + 'beta_ensemble_polynomial_potential_core.py', D + 'multivariate_jacobi_ope.py', D + 'exotic_dpps_core.py', D + 'exotic_dpps.py', D + 'exact_sampling.py', D + 'utils.py'],
  [('the functions named in the statement, whose docstrings give the formulas', 'dppy/random_matrices.py, dppy/beta_ensemble_polynomial_potential_core.py, dppy/multivariate_jacobi_ope.py, dppy/utils.py')])

p('C16', 'A rejection sampler never returns a candidate it did not accept',
  'Samplers that propose and reject return a candidate only if the acceptance test succeeded for that very candidate, and what they return does not depend on the candidates rejected before it, nor on how many there were (other than reported counters). If the allowed number of proposals is exhausted they raise an error instead of silently returning the last rejected candidate or a default.',
  ['histories', 'inputs'],
  'All rejection loops of the package (vfx and alpha intermediate sampling, one-dimensional and multivariate Jacobi OPE, truncated Gaussian, generalised gamma, quadratic, linear and quartic log-concave samplers) and all accept/reject histories, including the one where every proposal is rejected.',
  'Exhausting the proposals has negligible probability for the parameters of the tests.',
  [D + 'intermediate_sampling.py', D + 'exact_sampling.py', D + 'multivariate_jacobi_ope.py', D + 'beta_ensemble_polynomial_potential_core.py'],
  [('for ... break on acceptance, else: raise ValueError', 'vfx_sampling_do_sampling_loop, alpha_dpp_sampling_do_sampling_loop, MultivariateJacobiOPE.sample_chain_rule_proposal, MultivariateJacobiOPE.sample, trunc_gaussian_sampler, gen_gamma_alpha_lt_1_sampler, sampler_exact_convex_quartic')])

p('C17', 'FiniteDPP validates every representation before accepting it',
  'A FiniteDPP object comes into existence only if each representation it was given passed the check that belongs to it: kernels are symmetric (and projections when declared so), correlation eigenvalues lie in [0,1] (or {0,1}), likelihood eigenvalues are non-negative (or {0,1}), eigenvectors are orthonormal, the zonotope matrix has full row rank, the likelihood function is callable and the data a non-empty matrix. Anything else, including an unknown kernel type or missing parameters, ends in ValueError. A representation that meets its requirements, boundary values such as eigenvalues 0 and 1 included, is accepted.',
  ['inputs', 'configurations'],
  'All kernel types, both values of projection, all subsets of representation parameters.',
  'The constructor tests use valid parameters and one invalid key; each (representation, projection, defect) combination is a separate path.',
  [D + 'finite_dpps.py', D + 'utils.py'],
  [('is_symmetric, is_projection, is_in_01, is_geq_0, is_equal_to_O_or_1, is_orthonormal_columns, is_full_row_rank on every constructor parameter', 'FiniteDPP.__init__'),
   ('__check_args_coherence', 'dppy/finite_dpps.py')])

p('C18', 'Model parameters outside their domain are rejected before sampling',
  'Every ensemble, process and sampler with a restricted parameter domain raises ValueError (or NotImplementedError for a model that does not exist) for parameters outside of it and returns or records nothing for them: beta, matrix sizes M >= N (both sizes for Jacobi), gamma shape, initial position in [0,1], Jacobi parameters, number of points, polynomial potentials, k against the rank, graph connectivity. Parameters inside their domain, boundary included, are accepted.',
  ['inputs', 'configurations'],
  'All parameter values outside the documented domain, in all models, modes and constructors.',
  'Tests use valid parameters; each guard is one branch that no test takes.',
  [D + f for f in ('beta_ensembles.py', 'random_matrices.py', 'exotic_dpps.py', 'multivariate_jacobi_ope.py', 'beta_ensemble_polynomial_potential.py', 'beta_ensemble_polynomial_potential_core.py', 'exact_sampling.py', 'finite_dpps.py')],
  [('guards at the top of constructors and samplers', 'BetaEnsemble.__init__, sample_full_model, mu_ref_*, VirtualDescentProcess.__init__, MultivariateJacobiOPE._check_params, k_dpp_eig_vecs_selector')])

p('C19', 'Every option of the public API is honoured',
  'Each option that a public function or method accepts or documents reaches the computation it controls, in every mode for which it is documented: it is neither ignored, nor overwritten by a default, nor rejected by an inner function it is forwarded to. An option given explicitly is used even if its value is 0.',
  ['inputs', 'configurations'],
  'All explicit parameters and documented keyword options of all public functions and methods, in all modes.',
  'Most options are never set by a test, and an ignored option gives a plausible result computed with the default.',
  ALLS, [('explicit parameters and params.get / **params forwarding', 'FiniteDPP.sample_*, dpp_sampler_mcmc, dpp_vfx_sampler, alpha_dpp_sampler and k-DPP versions, bless, UST.sample')])

p('C20', 'Continuous ensembles return the requested number of points',
  'Every matrix model, banded model, i.i.d. (beta = 0) model and multivariate orthogonal polynomial sampler returns exactly as many points as requested, of the documented dimension, for every admissible beta, size, parity of size and mode.',
  ['inputs', 'configurations'],
  'All ensembles, all beta, all sizes N and M, full and banded models, all modes.',
  'Tests (where they run at all) use one size per model and look at histograms, which do not show missing or duplicated points.',
  [D + f for f in ('beta_ensembles.py', 'random_matrices.py', 'multivariate_jacobi_ope.py', 'beta_ensemble_polynomial_potential.py')],
  [('matrix dimensions and eigenvalue routines', 'dppy/random_matrices.py'), ('size= arguments of i.i.d. draws', 'dppy/beta_ensembles.py')])

p('C21', 'Ensemble parameters: recorded, used and mutually consistent',
  'Whatever was called before on the same ensemble object, a sampling call that returns draws with the arguments it was given (or the documented defaults of that model, never values left from an earlier call), records exactly the parameters it drew with in `params`, and normalize_points, plot and hist read those of the last sample: they rescale its points by the documented factors for the model that was used, and draw the reference density for the recorded sizes. Where a model has two parametrizations (matrix sizes and reference measure), the conversions in all samplers agree and are inverse to each other: shape = beta/2 (M-N+1) and M = 2/beta shape + N-1, likewise a, b and M1, M2 of the Jacobi ensemble, where one size alone does not replace a and b. For beta = 0 the sample is i.i.d. from the reference measure with these parameters.',
  ['inputs', 'histories', 'configurations'],
  'All ensembles, full and banded models, all parameter values, sequences of sampling calls with different parameters on one object.',
  'A wrong record or conversion in one of the eight sites only rescales or shifts the distribution; no test compares the parametrizations.',
  [D + 'beta_ensembles.py'],
  [('self.params.update(params) before sampling and self.params[...] in the sampler call', 'dppy/beta_ensembles.py sample_full_model, sample_banded_model')])

p('C22', 'The package imports and works without its optional dependencies',
  'Importing any module of the package needs only its required dependencies, has no side effects and does not depend on the order in which modules are imported. Optional packages are imported only by the feature that needs them, and if one is missing that feature alone fails, with a ValueError naming the package, or falls back to a built-in replacement.',
  ['configurations', 'fault_sequences'],
  'All modules, all subsets of installed optional packages (networkx, cvxopt, tqdm, scikit-learn), all import orders.',
  'The suite runs in one environment, with one set of installed packages and one import order.',
  ALLS + [D + '__init__.py'],
  [('lazy imports in try/except ImportError', 'zonotope_sampler, UST.__init__, ust_sampler_*, get_progress_bar'),
   ('FiniteDPP imported inside functions to avoid an import cycle', 'dppy/intermediate_sampling.py')])

p('C23', 'Sampling loops make progress',
  'Every loop that repeats until a condition holds changes, in each iteration, the state that condition depends on, either by a fresh random draw or by a strictly monotone step, and loops over proposals are bounded. No input makes the package repeat the same deterministic computation forever.',
  ['inputs', 'histories'],
  'All while loops and retry loops of the package, all inputs and random outcomes.',
  'A non-terminating case is a particular input or random outcome; a test that met it would hang rather than fail.',
  [D + f for f in ('bless.py', 'mcmc_sampling.py', 'exotic_dpps_core.py', 'intermediate_sampling.py', 'exact_sampling.py')],
  [('lam_init /= 1.25, lam_sequence.pop(), fresh draws in each iteration', 'dppy/bless.py, dppy/exotic_dpps_core.py')])

p('C25', 'Rejection samplers have the documented law',
  'For all parameters, the density of the value a rejection sampler returns, that is proposal density times acceptance probability up to a constant factor, is the documented one. This covers the log-concave samplers of dppy.beta_ensemble_polynomial_potential_core (truncated Gaussian, generalised gamma, linear, quadratic and convex quartic potentials) and one step of its MALA kernel, the points of the multivariate Jacobi ensemble (each conditional of the chain rule, in dimension one and more, for parameters with and without -1/2, and for every number of points drawn so far), and the intermediate samplers vfx and alpha-dpp: law of the intermediate sample up to normalisation and kernel of the DPP drawn from it at the end. After a rejection the next proposal is drawn and accepted afresh, independently of the rejected one.',
  ['inputs', 'configurations'],
  'All parameters, dimensions and kernels (as identities in their entries), all proposals and accept/reject histories.',
  'Tests compare an empirical histogram with a tolerance for one or two parameters; a wrong exponent, a bound that is too small for unequal parameters or a bias of the intermediate sample is not seen.',
  [D + 'intermediate_sampling.py', D + 'multivariate_jacobi_ope.py', D + 'beta_ensemble_polynomial_potential_core.py'],
  [('acceptance tests against documented densities', 'sampler_exact_convex_quartic, gen_gamma_sampler, trunc_gaussian_sampler, MultivariateJacobiOPE.sample_chain_rule_proposal, MultivariateJacobiOPE.sample'),
   ('intermediate sample, Poisson number of items and acceptance by the determinant', 'vfx_sampling_do_sampling_loop, alpha_dpp_sampling_do_sampling_loop')])

p('C30', 'Exact samplers of finite DPPs have the exact law',
  'For every kernel, the set returned by an exact sampler of finite DPPs has exactly the law of the point process that the arguments describe: chain-rule samplers of projection kernels and of eigenvectors (all modes, full size or a smaller k), the sampler for generic (also non-symmetric) kernels, both selections of eigenvectors, and sample_exact and sample_exact_k_dpp of FiniteDPP for all representations and all modes other than the intermediate-sampling ones. The probability of each set is the corresponding (normalised) determinant.',
  ['inputs', 'configurations'], 'All kernels and spectra (as polynomial identities in their entries), all modes and representations, all random outcomes.',
  'Tests compare a few empirical frequencies with a tolerance, on one or two kernels; a wrong entry of a recursion that matters from the third item on, or for non-symmetric kernels, goes unnoticed.',
  [D + 'exact_sampling.py', D + 'finite_dpps.py'],
  [('chain rule with Gram-Schmidt, Cholesky and Schur updates', 'proj_dpp_sampler_kernel_GS, _Chol, _Schur, proj_dpp_sampler_eig_GS, _GS_bis, _KuTa12'),
   ('Bernoulli and elementary-symmetric-polynomial selections', 'dpp_eig_vecs_selector, k_dpp_eig_vecs_selector'),
   ('conversions between spectra of K and L', 'FiniteDPP.sample_exact, FiniteDPP.sample_exact_k_dpp')])

# not decidable by static analysis here
p('C26', 'Samplers of exotic DPPs have the exact law',
  'For every graph, root and mode (Wilson, Aldous-Broder, DPP on the edges) a UST sample is a uniform spanning tree of the graph; CarriesProcess and DescentProcess have the law of the carries of a column of uniform digits, and of the descents of a uniform permutation; VirtualDescentProcess gives descents with the marginal that its object declares (the density (1 - x_0^2)/2 used in its plots), with the documented combination of descents of a uniform permutation and of marked points; uniform_permutation is uniform; PoissonizedPlancherel records the shape of the RSK tableau of a uniform permutation whose size is Poisson.',
  ['inputs', 'configurations'],
  'All graphs, roots, modes, bases, sizes, parameters and random outcomes.',
  'Tests compare one empirical distribution per mode with a tolerance on a single graph, and not at all for the other processes.',
  [D + 'exotic_dpps.py', D + 'exotic_dpps_core.py'],
  [('random walks, edges of the DPP sample, digits, permutations, marked points', 'ust_sampler_wilson, ust_sampler_aldous_broder, uniform_permutation, UST.sample, CarriesProcess.sample, DescentProcess.sample, VirtualDescentProcess.sample, PoissonizedPlancherel.sample')])
p('C34', 'Matrix models of ensembles have the exact joint law of eigenvalues',
  'The matrix models of the ensembles have the documented joint law of eigenvalues.',
  ['inputs', 'configurations'], 'All parameters.',
  'Tests compare a few empirical frequencies with a tolerance.',
  [D + 'random_matrices.py'],
  [('matrix models', 'dppy/random_matrices.py')])
p('C31', 'Numerical results are accurate',
  'Kernel evaluations, equilibrium densities, norms, rejection bounds, the Tracy-Widom distribution function and conditional log-densities agree with their mathematical definitions within rounding error, over their whole domain.',
  ['inputs'], 'All evaluation points and parameters.',
  'Tests compare a handful of points with reference values.',
  [D + 'multivariate_jacobi_ope.py', D + 'beta_ensemble_polynomial_potential_core.py', D + 'random_matrices.py'],
  [('closed formulas and quadrature', 'dppy/beta_ensemble_polynomial_potential_core.py, dppy/multivariate_jacobi_ope.py')])
p('C32', 'Combinatorial outputs are well formed',
  'UST samples are spanning trees of the given graph, RSK returns a pair of standard tableaux of the same shape, permutations are permutations, and multi-index orderings are complete and without repetition.',
  ['inputs', 'histories'], 'All graphs, sequences, sizes and random outcomes.',
  'Tests check a few small graphs and sequences.',
  [D + 'exotic_dpps_core.py', D + 'exotic_dpps.py', D + 'multivariate_jacobi_ope.py'],
  [('Wilson and Aldous-Broder walks, RSK insertion', 'dppy/exotic_dpps_core.py')])
p('C33', 'Numerical robustness near degenerate kernels',
  'For kernels that are valid up to rounding (rank deficient Gram matrices, eigenvalues equal to 0 or 1 within tolerance), samplers and conversions return valid results or raise, and never propagate NaN.',
  ['inputs'], 'All kernels within tolerance of the validity boundary.',
  'Tests use well conditioned random kernels.',
  [D + 'finite_dpps.py', D + 'exact_sampling.py', D + 'utils.py'],
  [('np.maximum(eig, 0), tolerances', 'dppy/finite_dpps.py')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(x) + '\n' for x in P))
