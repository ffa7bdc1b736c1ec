BUG = {'property': 'C25', 'file': 'multivariate_jacobi_ope.py', 'edits': [('                    phi[n] /= np.sqrt(schur)\n', '                    phi[n] /= np.sqrt(K_xx)\n')], 'needs': 'ensembles of at least three points: the feature vector of the second point is normalised by its length before the projection', 'breaks': 'the third and later points of the multivariate Jacobi ensemble are accepted with a wrong probability (repulsion too weak)'}
DEMO = r'''import numpy as np
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
dpp = MultivariateJacobiOPE(3, np.array([[0.5, 0.2], [-0.2, 0.4]]))
class R(np.random.RandomState):
    def rand(self, *a):
        return self.us.pop(0)
    random_sample = random = rand
    def uniform(self, *a, **k):
        return self.us.pop(0)
def run(points, us):
    r = R(0)
    r.us, ps = list(us), [np.array(p) for p in points]
    dpp.sample_chain_rule_proposal = lambda *a, **k: ps.pop(0).copy()
    try:
        return dpp.sample(random_state=r)
    except IndexError:
        return None      # the last point was rejected
K = dpp.K
def prob(x, ys):
    """probability of acceptance of x after the points ys"""
    S = np.array(ys + [x])
    f = dpp.eval_multiD_polynomials(S)
    G = f.dot(f.T)
    return np.linalg.det(G) / np.linalg.det(G[:-1, :-1]) / G[-1, -1]
rng = np.random.RandomState(1)
for _ in range(40):
    a, b, c, d = rng.uniform(-.9, .9, (4, 2))
    pb, pc = prob(b, [a]), prob(c, [a, b])
    got = run([a, b, c], [0.5, 0.99 * pb, 0.99 * pc])
    assert got is not None and np.allclose(got, [a, b, c])
    assert run([a, b, c], [0.5, 0.99 * pb, min(1.01 * pc, 0.9999)]) is None
'''
