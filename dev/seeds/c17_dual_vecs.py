BUG = {'property': 'C17', 'file': 'finite_dpps.py', 'edits': [("        if self.eig_vecs is None:  # K_eig_vecs = L_eig_vecs\n            self.eig_vecs = is_orthonormal_columns(e_vecs)\n", "        if self.eig_vecs is None:  # K_eig_vecs = L_eig_vecs\n            self.eig_vecs = e_vecs\n")],
       'needs': 'an eigendecomposition of the likelihood kernel whose eigenvectors are not orthonormal', 'breaks': 'FiniteDPP(likelihood, L_eig_dec) no longer validates the eigenvectors'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
try:
    FiniteDPP('likelihood', L_eig_dec=(np.array([1., 2., 3.]), np.triu(np.ones((3, 3)))))
except ValueError:
    pass
else:
    raise SystemExit('non orthonormal eigenvectors accepted')
"""
