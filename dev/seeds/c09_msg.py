BUG = {'property': 'C09', 'file': 'exact_sampling.py', 'edits': [("        raise ValueError('size k={} > rank={}'.format(k, rank))\n", "        raise ValueError('size k={} > rank={} (N={})'.format(k, rank))\n")], 'needs': 'a k-DPP size larger than the rank of the likelihood kernel', 'breaks': 'the error branch fails with IndexError instead of raising its ValueError'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import k_dpp_eig_vecs_selector
try:
    k_dpp_eig_vecs_selector(np.array([1., 2., 0.]), np.eye(3), 3, random_state=0)
except ValueError as e:
    assert 'rank' in str(e)
"""
