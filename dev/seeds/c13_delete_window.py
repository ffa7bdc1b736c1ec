BUG = {'property': 'C13', 'file': 'mcmc_sampling.py', 'edits': [('(U < 0.5 * (ratio**2 + (1 - ratio))):', '(U < 0.5 * (ratio + (1 - ratio))):')], 'needs': 'add-exchange-delete chain, states of size strictly between 0 and N; the bias shows only in the stationary law', 'breaks': 'deletions are proposed with probability r/2 instead of r^2/2, so that the moves no longer balance'}
DEMO = r"""import itertools
import numpy as np
from dppy.mcmc_sampling import add_exchange_delete_sampler
L = np.array([[.8, .1, 0., 0.], [.1, 1.5, .3, .2], [0., .3, .9, .1], [0., .2, .1, 1.2]])
n = 60000
chain = add_exchange_delete_sampler(L, s_init=[0], nb_iter=n, random_state=np.random.RandomState(2))
Z = np.linalg.det(L + np.eye(4))
sizes = np.bincount([len(s) for s in chain], minlength=5) / n
want = np.zeros(5)
for k in range(5):
    for S in itertools.combinations(range(4), k):
        want[k] += (np.linalg.det(L[np.ix_(S, S)]) if S else 1.) / Z
assert np.abs(sizes - want).max() < 0.03, (sizes, want)
"""
