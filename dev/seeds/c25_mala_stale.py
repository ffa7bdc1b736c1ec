BUG = {'property': 'C25', 'file': 'beta_ensemble_polynomial_potential_core.py', 'edits': [('    for _ in range(nb_steps):\n\n        Vx, grad_Vx = V(x_), d1_V(x_)\n', '    Vx, grad_Vx = V(x_), d1_V(x_)\n\n    for _ in range(nb_steps):\n\n'), ('            x_ = y\n\n    return x_', '            x_, Vx = y, Vy\n\n    return x_')], 'needs': 'a chain of at least two steps whose first move is accepted: the gradient is the one at the initial point', 'breaks': 'MALA with a drift frozen at the starting point does not leave exp(-V) invariant'}
DEMO = r'''import numpy as np
from dppy.beta_ensemble_polynomial_potential_core import sampler_mala
rng = np.random.RandomState(0)
V = np.poly1d([0.5, 0, 0])
x = np.array([sampler_mala(2.5, V, sigma=0.9, nb_steps=25, random_state=rng) for _ in range(4000)])
assert abs(x.mean()) < 0.15 and abs(x.std() - 1) < 0.1, (x.mean(), x.std())
'''
