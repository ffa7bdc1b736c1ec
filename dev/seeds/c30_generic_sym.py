BUG = {'property': 'C30', 'file': 'exact_sampling.py', 'edits': [('        A[j + 1:, j + 1:] -= np.outer(A[j + 1:, j], A[j, j + 1:])\n', '        A[j + 1:, j + 1:] -= A[j, j] * np.outer(A[j + 1:, j], A[j + 1:, j])\n')], 'needs': 'a correlation kernel that is not symmetric', 'breaks': 'the Schur complement assumes a symmetric kernel: wrong law for non-symmetric kernels'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import dpp_sampler_generic_kernel
K = np.array([[.5, .4], [-.4, .5]])
r = np.random.RandomState(1)
S = [dpp_sampler_generic_kernel(K, random_state=r)[0] for _ in range(4000)]
p = np.mean([len(s) == 2 for s in S])
assert abs(p - np.linalg.det(K)) < .04, p
"""
