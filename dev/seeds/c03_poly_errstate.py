BUG = {'property': 'C03', 'file': 'exact_sampling.py', 'edits': [('    N = eig_vals.size\n    E = np.zeros((size + 1, N + 1))\n    E[0, :] = 1.0\n', "    N = eig_vals.size\n    E = np.zeros((size + 1, N + 1))\n    E[0, :] = 1.0\n    old = np.seterr(over='raise')\n"), ('            E[k, n] = E[k, n - 1] + eig_vals[n - 1] * E[k - 1, n - 1]\n\n    return E', '            E[k, n] = E[k, n - 1] + eig_vals[n - 1] * E[k - 1, n - 1]\n\n    np.seterr(**old)\n\n    return E')], 'needs': 'polynomials that overflow: the exception leaves before the setting is restored', 'breaks': 'numpy stays in over=raise mode'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import elementary_symmetric_polynomials
before = np.geterr()
try:
    elementary_symmetric_polynomials(np.full(10, 1e200), 5)
except FloatingPointError:
    pass
assert np.geterr() == before
"""
