BUG = {'property': 'C10', 'file': 'finite_dpps.py', 'edits': [("                            eig_vecs=self.eig_vecs[:, self.L_eig_vals > 0.5],\n                            mode=self.sampling_mode,\n                            size=size,", "                            eig_vecs=self.eig_vecs[:, self.L_eig_vals > 0.5],\n                            mode=self.sampling_mode,\n                            size=None if self.L is not None else size,")],
       'needs': 'a projection likelihood kernel given by its eigendecomposition, with compute_L called before a k-DPP sample of size below the rank', 'breaks': 'the k-DPP sample has rank items'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
Q = np.linalg.qr(np.random.RandomState(1).randn(9, 5))[0]
for pre in (False, True):
    for k in (2, 3, 5):
        D = FiniteDPP('likelihood', projection=True, L_eig_dec=(np.ones(5), Q))
        if pre:
            D.compute_L()
        x = D.sample_exact_k_dpp(size=k, random_state=3)
        assert len(x) == k, (pre, k, x)
"""
