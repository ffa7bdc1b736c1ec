BUG = dict(property='C24', file='beta_ensemble_polynomial_potential_core.py', edits=[("                        + b[i+1] * (a[i]**2 + a[i]*a[i+2] + a[i+2]**2", "                        + b[i+1] * (a[i]**2 + a[i]*a[i+1] + a[i+2]**2")],
           needs='a potential with a term of degree six, unequal diagonal coefficients and a coefficient away from the end of the chain',
           breaks='the conditional of b_i uses a_{i+1} in place of a_{i+2} in the mixed term of the x^6 potential')
DEMO = r"""import numpy as np
from dppy.beta_ensemble_polynomial_potential_core import polynomial_in_negative_log_conditional_b_coef as f
r = np.random.RandomState(0)
N, i = 5, 2
a, b = np.zeros(N + 3), np.zeros(N + 3)
a[1:N + 1] = r.randn(N); b[1:N] = 1 + r.rand(N - 1)
V = np.poly1d([1., 0, 0, 0, 0, 0, 0])
def tr(x):
    c = b.copy(); c[i] = x
    J = np.diag(a[1:N + 1]) + np.diag(np.sqrt(c[1:N]), 1) + np.diag(np.sqrt(c[1:N]), -1)
    return np.trace(np.linalg.matrix_power(J, 6))
P = f(i, a, b, V)
assert np.isclose(P(2.) - P(1.), tr(2.) - tr(1.))
"""
