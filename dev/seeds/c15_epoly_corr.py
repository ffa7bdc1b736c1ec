BUG = dict(property='C15', file='finite_dpps.py', edits=[("                self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,\n                                                               size)", "                eig_vals = self.K_eig_vals if self.L is None and self.K_eig_vals is not None and self.L_dual is not None else self.L_eig_vals\n                self.E_poly = elementary_symmetric_polynomials(eig_vals, size)")],
           needs='a DPP given by a Gram factor with fewer rows than columns, an exact sample first, then a k-DPP sample',
           breaks='after an exact sample the symmetric polynomials of the k-DPP are computed from the correlation eigenvalues')
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
from dppy.exact_sampling import elementary_symmetric_polynomials
phi = np.random.RandomState(0).randn(3, 6)
for first in (False, True):
    d = FiniteDPP('likelihood', L_gram_factor=phi)
    if first:
        d.sample_exact(random_state=1)
    d.sample_exact_k_dpp(2, random_state=2)
    assert np.allclose(d.E_poly, elementary_symmetric_polynomials(d.L_eig_vals, 2)), first
"""
