BUG = {'property': 'C16', 'file': 'beta_ensemble_polynomial_potential_core.py', 'edits': [('        if np.log(U) < -P[2] * X**2:\n', '        if np.log(U) < -P[2] * X**2 or it == it_max:\n')], 'needs': 'a generalised gamma law (shape below one) for which all 100 proposals are rejected, e.g. a large quadratic coefficient', 'breaks': 'the last proposal is returned although it was rejected'}
DEMO = r'''import numpy as np
from dppy.beta_ensemble_polynomial_potential_core import gen_gamma_alpha_lt_1_sampler
rng = np.random.RandomState(0)
P = np.poly1d([1e4, 1e-3, 0.0])
out = []
for _ in range(30):
    try:
        x, _it = gen_gamma_alpha_lt_1_sampler(0.9, P, random_state=rng)
    except ValueError:
        continue
    out.append(float(np.ravel(x)[0]))
assert all(x < 0.1 for x in out), out
'''
