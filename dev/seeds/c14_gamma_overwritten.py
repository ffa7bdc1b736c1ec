BUG = {'property': 'C14', 'file': 'finite_dpps.py', 'edits': [('            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)\n            self.L_eig_vals = is_geq_0(self.L_eig_vals)\n', '            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)\n            self.L_eig_vals = is_geq_0(self.L_eig_vals)\n            self.K_eig_vals = self.L_eig_vals / self.L_eig_vals.max()\n')], 'needs': 'L_gram_factor with more columns than rows, a k-DPP sample followed by a sample of the DPP', 'breaks': 'the k-DPP call leaves rescaled inclusion probabilities in the object, which the next call of sample_exact uses'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
r = np.random.RandomState(3)
Phi = .4 * r.randn(2, 5)
dpp = FiniteDPP('likelihood', L_gram_factor=Phi)
dpp.sample_exact_k_dpp(1, random_state=r)
n = np.mean([len(dpp.sample_exact(random_state=r)) for _ in range(2000)])
g = np.linalg.eigvalsh(Phi.dot(Phi.T))
assert abs(n - np.sum(g / (1 + g))) < .12, (n, np.sum(g / (1 + g)))
"""
