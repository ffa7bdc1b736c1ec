BUG = {'property': 'C30', 'file': 'exact_sampling.py', 'edits': [('        A[[j, t], :j] = A[[t, j], :j]\n', '        A[[j, t], 1:j] = A[[t, j], 1:j]\n')], 'needs': 'mode Chol, at least three items, an exchange of rows at the second item or later', 'breaks': 'the first column of the Cholesky factor is not permuted with the items'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import proj_dpp_sampler_kernel


r = np.random.RandomState(1)
Q, _ = np.linalg.qr(r.randn(4, 3))
K = Q.dot(Q.T)
n = 6000
S = [frozenset(proj_dpp_sampler_kernel(K, mode='Chol', random_state=r)) for _ in range(n)]
for out in range(4):
    s = [i for i in range(4) if i != out]
    p, q = np.mean([x == frozenset(s) for x in S]), np.linalg.det(K[np.ix_(s, s)])
    assert abs(p - q) < .04, (s, p, q)
"""
