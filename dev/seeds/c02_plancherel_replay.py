BUG = {'property': 'C02', 'file': 'exotic_dpps.py', 'edits': [('sigma = uniform_permutation(N, random_state=rng)', 'sigma = uniform_permutation(N, random_state=random_state)')], 'needs': 'an integer seed (a generator object or None hides it)', 'breaks': 'the permutation replays the variates that produced its length'}
DEMO = r"""import numpy as np
from dppy.exotic_dpps import PoissonizedPlancherel
a = PoissonizedPlancherel(theta=60); a.sample(random_state=4)
b = PoissonizedPlancherel(theta=60); b.sample(random_state=np.random.RandomState(4))
assert a.list_of_samples == b.list_of_samples
"""
