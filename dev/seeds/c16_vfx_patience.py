BUG = {'property': 'C16', 'file': 'intermediate_sampling.py', 'edits': [('            accept = np.log(rng.rand()) <= acc_thresh\n\n            prog_bar.set_postfix(acc_thresh=np.exp(acc_thresh), rej_count=rej_iter)\n', '            accept = np.log(rng.rand()) <= acc_thresh + np.log1p(rej_iter)\n\n            prog_bar.set_postfix(acc_thresh=np.exp(acc_thresh), rej_count=rej_iter)\n')], 'needs': 'a vfx intermediate sample proposed after at least one rejection', 'breaks': 'the acceptance probability grows with the number of rejections: what is returned depends on how many candidates were rejected before'}
DEMO = r'''import numpy as np
import dppy.intermediate_sampling as m
import dppy.finite_dpps
dppy.finite_dpps.FiniteDPP.sample_exact = lambda self, *a, **k: [0]
X = np.array([[1.0], [2.0]])
L = lambda a, b=None: a.dot((a if b is None else b).T)
class R(np.random.RandomState):
    def poisson(self, *a, **k):
        return 1
    def choice(self, n, *a, **k):
        return np.array([1])
    def rand(self, *a):
        return self.u.pop(0)
    random_sample = random = rand
    def uniform(self, *a, **k):
        return self.u.pop(0)
def accepted(us):
    info = m._IntermediateSampleInfo(*[None] * len(m._IntermediateSampleInfo._fields))._replace(
        alpha_star=1.0, logdet_I_A=np.array(5.0), q=2.0, s=1.0, z=np.array(1.0), rls_estimate=np.array([.4, .6]))
    r = R(0)
    r.u = list(us) + [0.5] * 50
    try:
        m.vfx_sampling_do_sampling_loop(X, L, info, r, max_iter=len(us), verbose=False)
        return True
    except ValueError:
        return False
p = np.exp(1 - 5 - 0.5) * (1 + 4.0 / (2 * .6))
assert 0 < p < .3, p
assert accepted([p * 0.99]) and not accepted([p * 1.01])
assert accepted([0.99, 0.99, p * 0.99]) and not accepted([0.99, 0.99, p * 1.01])
'''
