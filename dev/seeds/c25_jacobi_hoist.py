BUG = {'property': 'C25', 'file': 'multivariate_jacobi_ope.py', 'edits': [('        for trial in range(nb_trials_max):\n\n            # Propose x', '        u = rng.rand() * rejection_bound\n\n        for trial in range(nb_trials_max):\n\n            # Propose x'), ('            if rng.rand() * rejection_bound < Pk2_x * w_over_w_eq:', '            if u < Pk2_x * w_over_w_eq:')], 'needs': 'a proposal of the chain rule that is rejected: the next one is compared with the same uniform variate', 'breaks': 'points of the multivariate Jacobi ensemble no longer follow K(x,x)w(x)/N: values with a low density are drawn too often or too rarely'}
DEMO = r'''import numpy as np
from scipy import stats
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
dpp = MultivariateJacobiOPE(1, np.array([[2.0, 2.5]]))
rng = np.random.RandomState(0)
x = np.array([dpp.sample_chain_rule_proposal(random_state=rng)[0] for _ in range(6000)])
p = stats.kstest((1 - x) / 2, stats.beta(3.0, 3.5).cdf)[1]
assert p > 1e-6, p
'''
