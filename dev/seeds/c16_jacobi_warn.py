BUG = {'property': 'C16', 'file': 'multivariate_jacobi_ope.py', 'edits': [('            if rng.rand() * rejection_bound < Pk2_x * w_over_w_eq:\n                break\n        else:\n', '            if rng.rand() * rejection_bound < Pk2_x * w_over_w_eq:\n                break\n        if trial == nb_trials_max:\n')], 'needs': 'nb_trials_max proposals in a row that are rejected', 'breaks': 'the exhaustion of the trials is no longer noticed, and the last rejected proposal is returned as a point'}
DEMO = r'''import numpy as np
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
dpp = MultivariateJacobiOPE(1, np.array([[5.0, 5.5]]))
rng = np.random.RandomState(0)
n = 0
for _ in range(300):
    try:
        dpp.sample_chain_rule_proposal(nb_trials_max=1, random_state=rng)
        n += 1
    except ValueError:
        pass
assert n < 250, n
'''
