BUG = dict(property='C15', file='finite_dpps.py', edits=[("            self.K_eig_vals = self.L_eig_vals / (1.0 + self.L_eig_vals)\n            return self.sample_exact(mode=self.sampling_mode,", "            self.K_eig_vals = 1.0 / (1.0 + 1.0 / np.sort(self.L_eig_vals)) if np.all(self.L_eig_vals) else self.L_eig_vals / (1.0 + self.L_eig_vals)\n            return self.sample_exact(mode=self.sampling_mode,")],
           needs='a likelihood eigendecomposition given by the user with eigenvalues not in increasing order (all positive), exact sampling',
           breaks='the correlation eigenvalues are sorted and no longer belong to the eigenvectors next to them')
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
d = FiniteDPP('likelihood', L_eig_dec=(np.array([3.0, 0.5, 1.0]), np.eye(3)))
d.sample_exact(random_state=1)
d.compute_K()
assert np.allclose(np.diag(d.K), [0.75, 1 / 3, 0.5]), d.K
"""
