BUG = {'property': 'C01', 'file': 'mcmc_sampling.py', 'edits': [('T = rng.choice(2 * N, size=N, replace=False)', 'T = np.random.permutation(2 * N)[:N]')], 'needs': 'add-exchange-delete chain started without s_init; the global numpy state differs between the two calls', 'breaks': 'the initial state comes from the global generator although random_state was passed'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
rng = np.random.RandomState(0)
Phi = rng.randn(6, 6)
out = []
for g in range(8):
    np.random.seed(g)
    dpp = FiniteDPP('likelihood', L=Phi.T.dot(Phi))
    dpp.sample_mcmc('AED', random_state=3, nb_iter=4)
    out.append(dpp.list_of_samples[0])
assert all(o == out[0] for o in out), out
"""
