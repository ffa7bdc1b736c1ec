BUG = {'property': 'C05', 'file': 'exact_sampling.py', 'edits': [('    A = K.copy()\n    sample = []\n', '    A = K.astype(float, copy=False)\n    sample = []\n')], 'needs': 'a real kernel of dtype float (an integer or complex one is copied)', 'breaks': 'the correlation kernel of the caller is overwritten by its LU factor'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
r = np.random.RandomState(0)
U, _ = np.linalg.qr(r.randn(5, 5))
K = (U * r.rand(5)).dot(U.T)
K0 = K.copy()
dpp = FiniteDPP('correlation', K=K)
dpp.sample_exact('Chol', random_state=0)
assert np.array_equal(K, K0)
"""
