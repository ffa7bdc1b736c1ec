BUG = dict(property='C24', file='random_matrices.py', edits=[("    c_even[1:] = rng.beta(b_2_Ni[:-1], b_2_Ni[1:] + a + b)\n", "    c_even[1:] = rng.beta(b_2_Ni[:-1], b_2_Ni[1:] + max(a + b, 1.0))\n")],
           needs='parameters of the beta reference measure whose sum is less than one',
           breaks='the tridiagonal model of the Jacobi ensemble samples other eigenvalues when a + b < 1')
DEMO = r"""import numpy as np
from scipy.linalg import eigvalsh_tridiagonal
from dppy.random_matrices import mu_ref_beta_sampler_tridiag as f
for a, b in ((1., 2.), (.2, .3)):
    x = f(a, b, beta=2.5, size=4, random_state=3)
    r = np.random.RandomState(3)
    k = 1.25 * np.arange(3, -1, -1)
    co = r.beta(k + a, k + b)
    ce = np.concatenate(([0.], r.beta(k[:-1], k[1:] + a + b)))
    xo, xe = (1 - ce) * co, np.concatenate(([0.], (1 - co[:-1]) * ce[1:]))
    assert np.allclose(x, eigvalsh_tridiagonal(xe + xo, np.sqrt(xo[:-1] * xe[1:]))), (a, b)
"""
