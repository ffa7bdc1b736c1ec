BUG = {'property': 'C11', 'file': 'mcmc_sampling.py', 'edits': [('            t = rng.choice(np.delete(ground_set, S0))\n            S1[s_ind] = t', '            t = rng.choice(np.delete(ground_set, S0[s_ind]))\n            S1[s_ind] = t')], 'needs': 'basis exchange of at least two items', 'breaks': 'only the item that leaves is excluded from the items that may enter: states with a repeated item are proposed, which are refused only when their determinant is not positive after rounding'}
DEMO = r"""import numpy as np
from dppy import mcmc_sampling as m
real = m.det_ST


def det_ST(M, S, T=None):
    assert len(set(S)) == len(S), S
    return real(M, S, T)


m.det_ST = det_ST
m.basis_exchange_sampler(np.diag([3., 4., 5., 2.]), s_init=[0, 1], nb_iter=200, random_state=np.random.RandomState(1))
"""
