BUG = {'property': 'C14', 'file': 'beta_ensemble_polynomial_potential_core.py', 'edits': [('        if self.quad_order != quad_order:\n            self.quad_order = quad_order\n', '        if self.quad_order is None or self.quad_order < quad_order:\n            self.quad_order = quad_order\n')], 'needs': 'cdf with a large quadrature order, then with a smaller one on the same object', 'breaks': 'the cached quadrature of another order is reused'}
DEMO = r"""import numpy as np
from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
a, b = TracyWidom(), TracyWidom()
a.cdf(-1., quad_order=60)
x, y = a.cdf(-1., quad_order=4), b.cdf(-1., quad_order=4)
assert np.array_equal(x, y), (x, y)
"""
