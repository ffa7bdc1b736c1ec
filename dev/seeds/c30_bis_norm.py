BUG = {'property': 'C30', 'file': 'exact_sampling.py', 'edits': [('        V[j, :] /= norms_2[j]\n', '        V[j, :] /= np.sqrt(norms_2[j])\n')], 'needs': 'mode GS_bis, at least three eigenvectors', 'breaks': 'projections onto earlier directions are scaled wrongly from the third item on'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import proj_dpp_sampler_eig


class Rec(np.random.RandomState):
    def choice(self, a, p=None, **k):
        P.append((list(a), list(p)))
        return a[int(np.argmax(p))]


r = np.random.RandomState(1)
Q, _ = np.linalg.qr(r.randn(6, 4))
P = []
proj_dpp_sampler_eig(Q, mode='GS', random_state=Rec(0))
G, P = P, []
proj_dpp_sampler_eig(Q, mode='GS_bis', random_state=Rec(0))
for (a, p), (b, q) in zip(G, P):
    assert a == b and np.allclose(p, q), (p, q)
"""
