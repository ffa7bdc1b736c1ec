BUG = dict(property='C24', file='multivariate_jacobi_ope.py', edits=[("    square_norms = np.zeros((deg_max + 1, dim))\n", "    square_norms = np.full((deg_max + 1, dim), np.pi)\n"), ("    non_arcsine = np.any(jacobi_params != -0.5, axis=1)\n    if any(non_arcsine):\n        # |P_n|^2 =\n", "    non_arcsine = np.all(jacobi_params != -0.5, axis=1)\n    if any(non_arcsine):\n        # |P_n|^2 =\n")],
           needs='a pair of Jacobi parameters of which exactly one equals -1/2',
           breaks='the norms of the polynomials are left at pi for weights with exactly one parameter equal to -1/2')
DEMO = r"""import numpy as np
from scipy.special import eval_jacobi, roots_jacobi
from dppy.multivariate_jacobi_ope import compute_norms_1D_polynomials as f
jp = np.array([[-0.5, 0.3], [0.2, -0.5], [-0.5, -0.5], [0.1, 0.4]])
n = f(jp, 3)
for d, (a, b) in enumerate(jp):
    x, w = roots_jacobi(20, a, b)
    for k in range(4):
        assert np.isclose(n[k, d] ** 2, np.sum(w * eval_jacobi(k, a, b, x) ** 2)), (k, d)
"""
