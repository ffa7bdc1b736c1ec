BUG = {'property': 'C12', 'file': 'mcmc_sampling.py', 'edits': [('''            if rng.rand() < (det_S1 / det_S0):
                S0, det_S0 = S1, det_S1
''', '''            if rng.rand() < (det_S1 / det_S0):
                S0 = S1
''')], 'needs': 'add-exchange-delete chain: an accepted exchange followed by another proposal', 'breaks': 'the determinant of the state before the exchange is used in later acceptance tests'}
DEMO = r"""import numpy as np
from dppy.mcmc_sampling import add_exchange_delete_sampler


class Scripted(np.random.RandomState):
    def rand(self, *a):
        return float(script.pop(0))


# two exchanges are proposed: the first (0.1 -> 8) is accepted, the second (8 -> 0.1) must be rejected
for u in (0.02, 0.3, 0.9):
    script = [0.2, 0.5, 0.2, u]
    chain = add_exchange_delete_sampler(np.diag([.1, 8.]), s_init=[0], nb_iter=3, random_state=Scripted(0))
    assert chain == [[0], [1], [1]], chain
"""
