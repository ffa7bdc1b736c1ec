BUG = dict(property='C15', file='finite_dpps.py', edits=[("                    self.K_eig_vals = np.ones(rank)\n                    self.eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')", "                    self.K_eig_vals = np.ones(rank)\n                    self.eig_vecs = (self.A_zono / la.norm(self.A_zono, axis=1)[:, None]).T")],
           needs='exact k-DPP sampling of a DPP given by a matrix A_zono whose rows are not orthogonal',
           breaks='the rows are normalised but not orthogonalised: not eigenvectors of K = A^T (A A^T)^-1 A')
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
A = np.random.RandomState(0).randn(2, 5)
d = FiniteDPP('correlation', projection=True, A_zono=A)
d.sample_exact_k_dpp(2, random_state=1)
d.compute_K()
assert np.allclose(d.K, A.T.dot(np.linalg.solve(A.dot(A.T), A)))
"""
