BUG = {'property': 'C30', 'file': 'exact_sampling.py', 'edits': [('            K_inv[it, :it] = K_inv[:it, it]\n', '')], 'needs': 'mode Schur, projection kernel of rank at least 4', 'breaks': 'the inverse of the kernel of the selected items is not kept symmetric from the third item on'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import proj_dpp_sampler_kernel


class Rec(np.random.RandomState):
    def choice(self, a, p=None, **k):
        P.append((list(a), list(p)))
        return a[int(np.argmax(p))]


r = np.random.RandomState(1)
Q, _ = np.linalg.qr(r.randn(6, 4))
K = Q.dot(Q.T)
P = []
proj_dpp_sampler_kernel(K, mode='GS', random_state=Rec(0))
G, P = P, []
proj_dpp_sampler_kernel(K, mode='Schur', random_state=Rec(0))
for (a, p), (b, q) in zip(G, P):
    assert a == b and np.allclose(p, q), (p, q)
"""
