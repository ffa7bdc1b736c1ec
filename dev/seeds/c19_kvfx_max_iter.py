BUG = dict(property='C19', file='exact_sampling.py', edits=[('        sampl, rej_count = vfx_sampling_do_sampling_loop(\n                                X_data,\n                                eval_L,\n                                intermediate_sample_info,\n                                rng,\n                                **params)', "        sampl, rej_count = vfx_sampling_do_sampling_loop(\n                                X_data,\n                                eval_L,\n                                intermediate_sample_info,\n                                rng,\n                                verbose=params.get('verbose', True))")],
           needs='sample_exact_k_dpp in mode vfx with an explicit max_iter',
           breaks='the max_iter of the caller never reaches the rejection loop of the k-DPP sampler, the default 1000 is used')
DEMO = r"""import numpy as np
import dppy.exact_sampling as es
seen = []
orig = es.vfx_sampling_do_sampling_loop
def spy(*a, **k):
    seen.append(k.get('max_iter'))
    return orig(*a, **k)
es.vfx_sampling_do_sampling_loop = spy
from dppy.finite_dpps import FiniteDPP
X = np.random.RandomState(3).randn(60, 2)
def gram(x, y=None):
    x = np.atleast_2d(x)
    y = x if y is None else np.atleast_2d(y)
    return np.exp(-((x[:, None, :] - y[None, :, :])**2).sum(-1))
d = FiniteDPP('likelihood', L_eval_X_data=(gram, X))
d.sample_exact_k_dpp(size=4, mode='vfx', random_state=5, verbose=False, max_iter=777)
assert seen and all(x == 777 for x in seen), seen[:3]
"""
