BUG = dict(property='C19', file='mcmc_sampling.py', edits=[('        sampl = basis_exchange_sampler(kernel, s_init, nb_iter, T_max,\n                                       random_state=rng)', '        sampl = basis_exchange_sampler(kernel, s_init, nb_iter,\n                                       random_state=rng)')],
           needs='mode E (k-DPP) with a time limit and more iterations than the limit allows',
           breaks='T_max is silently ignored in mode E: the chain runs for nb_iter iterations however long that takes')
DEMO = r"""import numpy as np, time
from dppy.finite_dpps import FiniteDPP
import dppy.mcmc_sampling as m
clock = [0.0]
def fake():
    clock[0] += 1.0
    return clock[0]
m.time.time, real = fake, m.time.time
try:
    A = np.random.RandomState(0).randn(8, 8)
    d = FiniteDPP('likelihood', L=A.dot(A.T))
    d.sample_mcmc_k_dpp(size=3, nb_iter=1000, T_max=5.5, random_state=1)
finally:
    m.time.time = real
n = len(d.list_of_samples[-1])
assert n < 50, n
"""
