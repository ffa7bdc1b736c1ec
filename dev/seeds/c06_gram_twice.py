BUG = {'property': 'C06', 'file': 'finite_dpps.py', 'edits': [('            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs\n                                                    / np.sqrt(self.L_eig_vals))\n            return self.sample_exact_k_dpp(size, mode=self.sampling_mode,\n                                           random_state=rng)\n', '            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs\n                                                    / np.sqrt(self.L_eig_vals))\n            sampl = self.sample_exact_k_dpp(size, mode=self.sampling_mode,\n                                            random_state=rng)\n')], 'needs': 'first k-DPP sample of a DPP defined by a wide L_gram_factor (dual kernel)', 'breaks': 'the first sample is recorded twice'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
dpp = FiniteDPP('likelihood', L_gram_factor=np.random.RandomState(0).randn(3, 6))
dpp.sample_exact_k_dpp(2, random_state=0)
assert len(dpp.list_of_samples) == 1, dpp.list_of_samples
"""
