BUG = dict(property='C24', file='multivariate_jacobi_ope.py', edits=[("        min_a_b = np.minimum(a, b)\n", "        min_a_b = a if len(a) == 1 else np.minimum(a, b)\n"), ("        max_a_b = np.maximum(a, b)\n", "        max_a_b = b if len(a) == 1 else np.maximum(a, b)\n")],
           needs='exactly one dimension whose parameters are not both -1/2, with first parameter larger than the second, and degree at least one',
           breaks='the rejection bound exchanges the roles of the larger and the smaller parameter, and is no longer an upper bound')
DEMO = r"""import numpy as np
from dppy.multivariate_jacobi_ope import compute_rejection_bounds as f
ab, o = np.array([[0.5, -0.45]]), [(1,), (2,), (3,)]
assert np.allclose(f(ab, o), f(ab[:, ::-1], o))
assert np.allclose(f(ab, o, log_scale=False), f(ab, o))
"""
