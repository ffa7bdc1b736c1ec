BUG = {'property': 'C25', 'file': 'intermediate_sampling.py', 'edits': [('                            / (pc_state.s * sigma_uniq_count))\n', '                            / pc_state.s)\n')], 'needs': 'an intermediate sample of the vfx sampler that contains an item more than once', 'breaks': 'repeated items are not counted in the acceptance test of the vfx sampler: intermediate samples with repetitions are accepted too rarely, and the sample is not a DPP(L) sample'}
DEMO = r'''import numpy as np
import dppy.intermediate_sampling as m
import dppy.finite_dpps
dppy.finite_dpps.FiniteDPP.sample_exact = lambda self, *a, **k: [0]
X = np.array([[1.0], [2.0]])
L = lambda a, b=None: a.dot((a if b is None else b).T)
s, q, t = 1.0, 2.0, 3
class R(np.random.RandomState):
    def poisson(self, *a, **k):
        return 3
    def choice(self, n, *a, **k):
        return np.array([0, 0, 1])
    def rand(self, *a):
        return self.u
    random_sample = random = rand
    def uniform(self, *a, **k):
        return self.u
def accepted(u):
    info = m._IntermediateSampleInfo(*[None] * len(m._IntermediateSampleInfo._fields))._replace(
        alpha_star=1.0, logdet_I_A=np.array(5.0), q=q, s=s, z=np.array(1.0), rls_estimate=np.array([.4, .6]))
    r = R(0)
    r.u = u
    try:
        m.vfx_sampling_do_sampling_loop(X, L, info, r, max_iter=1, verbose=False)
        return True
    except ValueError:
        return False
c = np.array([2, 1])
A = np.sqrt(s * c / (q * np.array([.4, .6])))
p = np.exp(1 - 5 - t * s / q) * np.linalg.det(np.eye(2) + A[:, None] * X.dot(X.T) * A)
assert 0 < p < 1, p
assert accepted(p * 0.99) and not accepted(p * 1.01)
'''
