BUG = {'property': 'C10', 'file': 'exact_sampling.py', 'edits': [("    return orig_indices[:size].tolist(), A[:size, :size]", "    return orig_indices[:rank].tolist(), A[:size, :size]")],
       'needs': 'the Cholesky sampler called on a projection kernel with a size below its rank', 'breaks': 'proj_dpp_sampler_kernel_Chol returns rank items'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import proj_dpp_sampler_kernel
Q = np.linalg.qr(np.random.RandomState(1).randn(9, 5))[0]
K = Q.dot(Q.T)
for mode in ('GS', 'Chol', 'Schur'):
    for k in (None, 1, 2, 3, 4, 5):
        for s in range(3):
            x = proj_dpp_sampler_kernel(K, mode, size=k, random_state=np.random.RandomState(s))
            assert len(x) == (k or 5), (mode, k, x)
"""
