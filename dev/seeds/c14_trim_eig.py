BUG = {'property': 'C14', 'file': 'finite_dpps.py', 'edits': [('                V = self.eig_vecs[:, self.K_eig_vals > 0.5]\n', '                self.eig_vecs = V = self.eig_vecs[:, self.K_eig_vals > 0.5]\n')], 'needs': 'a projection DPP of rank < N given by its eigendecomposition, sampled twice', 'breaks': 'the object keeps only the selected eigenvectors but all eigenvalues, so that the second call cannot use them'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
r = np.random.RandomState(3)
Q, _ = np.linalg.qr(r.randn(4, 4))
dpp = FiniteDPP('correlation', projection=True, K_eig_dec=(np.array([1., 0., 1., 0.]), Q))
for _ in range(3):
    assert len(set(dpp.sample_exact(random_state=r))) == 2
"""
