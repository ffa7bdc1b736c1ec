BUG = {'property': 'C11', 'file': 'exact_sampling.py', 'edits': [('        avail[j] = False\n        V[j, :] -= contrib[j, :it].dot(V[sampl[:it], :])\n', '        V[j, :] -= contrib[j, :it].dot(V[sampl[:it], :])\n')], 'needs': 'mode GS_bis, rounding errors that leave a positive residual norm for a selected item, and a draw that falls on it', 'breaks': 'selected items stay in the population with a weight that is zero only up to rounding errors'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import proj_dpp_sampler_eig


class Unlucky(np.random.RandomState):
    # returns an item that was returned before, whenever that has positive probability
    def choice(self, a, p=None, **k):
        for i, q in zip(a, p):
            if q > 0 and i in seen:
                return i
        seen.append(a[int(np.argmax(p))])
        return seen[-1]


for s in range(50):
    seen = []
    Q, _ = np.linalg.qr(np.random.RandomState(s).randn(8, 5))
    S = proj_dpp_sampler_eig(Q, mode='GS_bis', random_state=Unlucky(0))
    assert len(set(S)) == len(S), S
"""
