BUG = {'property': 'C09', 'file': 'finite_dpps.py', 'edits': [('            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)\n            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)\n            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs\n', '            self.L_eig_vals, dual_eig_vecs = la.eigh(self.L_dual)\n            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)\n            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs\n')], 'needs': 'DPP sampling from a wide L_gram_factor', 'breaks': 'NameError on the dual representation'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
dpp = FiniteDPP('likelihood', L_gram_factor=np.random.RandomState(0).randn(3, 6))
dpp.sample_exact(random_state=0)
"""
