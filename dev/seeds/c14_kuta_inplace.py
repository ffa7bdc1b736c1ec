BUG = {'property': 'C14', 'file': 'exact_sampling.py', 'edits': [('    V = eig_vecs.copy()\n\n    N, rank = V.shape  # ground set size / rank(K)\n    if size is None:  # full projection DPP\n        size = rank\n    # else: k-DPP with k = size\n\n    ground_set = np.arange(N)\n    sampl = np.zeros(size, dtype=int)  # sample list\n    avail = np.ones(N, dtype=bool)  # available items\n\n    # Phase 1: Already performed!\n    # Select eigvecs with Bernoulli variables with parameter the eigvals\n\n    # Phase 2: Chain rule\n    norms_2 = inner1d(V, axis=1)  # ||V_i:||^2\n\n    # Following', '    V = np.asarray(eig_vecs)\n\n    N, rank = V.shape  # ground set size / rank(K)\n    if size is None:  # full projection DPP\n        size = rank\n    # else: k-DPP with k = size\n\n    ground_set = np.arange(N)\n    sampl = np.zeros(size, dtype=int)  # sample list\n    avail = np.ones(N, dtype=bool)  # available items\n\n    # Phase 1: Already performed!\n    # Select eigvecs with Bernoulli variables with parameter the eigvals\n\n    # Phase 2: Chain rule\n    norms_2 = inner1d(V, axis=1)  # ||V_i:||^2\n\n    # Following')], 'needs': 'two samples of a k-DPP or UST whose whole cached eigenvector matrix is handed to KuTa12', 'breaks': 'the sampler orthogonalizes the cached eigenvectors in place: later calls on the same object use corrupted eigenvectors'}
DEMO = r"""import numpy as np
import warnings
from dppy.finite_dpps import FiniteDPP
warnings.simplefilter('ignore')
r = np.random.RandomState(3)
A = r.randn(3, 6)
dpp = FiniteDPP('correlation', projection=True, A_zono=A)
dpp.sample_exact_k_dpp(3, mode='KuTa12', random_state=r)
V = dpp.eig_vecs
P = A.T.dot(np.linalg.solve(A.dot(A.T), A))
assert np.allclose(V.dot(V.T), P), 'cached eigenvectors changed'
"""
