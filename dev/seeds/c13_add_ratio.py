BUG = {'property': 'C13', 'file': 'mcmc_sampling.py', 'edits': [('det_S1 / det_S0 * (size_S0 + 1) / (N - size_S0):', 'det_S1 / det_S0 * (size_S0 + 1) / max(N - size_S0, 2):')], 'needs': 'add-exchange-delete chain adding the very last missing item', 'breaks': 'the correction of the proposal is wrong for states with N - 1 items: the full set is visited too rarely'}
DEMO = r"""import numpy as np
from dppy.mcmc_sampling import add_exchange_delete_sampler
L = np.diag([.7, .8])
n = 60000
chain = add_exchange_delete_sampler(L, s_init=[0], nb_iter=n, random_state=np.random.RandomState(2))
p = sum(1 for s in chain if len(s) == 2) / n
want = np.linalg.det(L) / np.linalg.det(L + np.eye(2))
assert abs(p - want) < 0.03, (p, want)
"""
