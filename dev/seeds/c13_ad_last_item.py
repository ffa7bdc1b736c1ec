BUG = {'property': 'C13', 'file': 'mcmc_sampling.py', 'edits': [('            if s in S1:\n', '            if s in S1 and len(S1) > 1:\n')], 'needs': 'add-delete chain in a state with one item, and the proposal of that very item', 'breaks': 'the chain never moves to the empty set although it leaves it: the move has no reverse'}
DEMO = r"""import numpy as np
from dppy.mcmc_sampling import add_delete_sampler
L = np.diag([.2, .1, .3])
n = 20000
chain = add_delete_sampler(L, s_init=[0], nb_iter=n, random_state=np.random.RandomState(2))
p = sum(1 for s in chain if not s) / n
want = 1. / np.linalg.det(L + np.eye(3))
assert abs(p - want) < 0.05, (p, want)
"""
