BUG = {'property': 'C25', 'file': 'intermediate_sampling.py', 'edits': [('            rls_bound_old = rls_bound.copy()\n', '            rls_bound_old = rls_bound\n')], 'needs': 'items of the alpha-dpp sampler whose leverage score is first bounded, then computed: the old bound is an alias of the updated array', 'breaks': 'thinning with the ratio of the new to the old bound keeps every item: the intermediate sample is too large and the sample is not from the DPP'}
DEMO = r'''import numpy as np
import dppy.intermediate_sampling as m
X = np.array([[1.0], [2.0]])
seen = []
class R(np.random.RandomState):
    def poisson(self, *a, **k):
        return np.array([3, 2])
    def binomial(self, n, p, *a, **k):
        seen.append(np.array(p, dtype=float).copy())
        return np.array(n)
m.estimate_rls_from_weighted_dict_eigendecomp = lambda Y, *a, **k: np.array([.2, .3])[:len(Y)]
T = m._IntermediateSampleInfoAlphaRescale
info = T(*[None] * len(T._fields))._replace(alpha_hat=1.0, r=2.0, eigvals_L_hat=np.array([30.0]), rls_upper_bound=np.array([.4, .9]), rls_upper_bound_valid=np.array([False, False]))
try:
    m.alpha_dpp_sampling_do_sampling_loop(X, lambda a, b=None: a.dot((a if b is None else b).T), info, R(0), max_iter=1, verbose=False)
except ValueError:
    pass
assert len(seen) == 0 or np.allclose(seen[0], [.5, 1 / 3]), seen
'''
