BUG = {'property': 'C02', 'file': 'exact_sampling.py', 'edits': [('        intermediate_sample_info = vfx_sampling_precompute_constants(\n                                    X_data=X_data,\n                                    eval_L=eval_L,\n                                    rng=rng,\n                                    **params)', '        intermediate_sample_info = vfx_sampling_precompute_constants(\n                                    X_data=X_data,\n                                    eval_L=eval_L,\n                                    rng=check_random_state(random_state),\n                                    **params)')], 'needs': 'dpp_vfx_sampler called directly with an integer seed', 'breaks': 'precomputation and sampling loop consume the same variates'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import dpp_vfx_sampler
from dppy.utils import example_eval_L_linear
X = np.random.RandomState(0).randn(40, 4)
o = dict(verbose=False, rls_oversample_bless=10, rls_oversample_dppvfx=10)
for s in range(6):
    a, _ = dpp_vfx_sampler(None, X, example_eval_L_linear, random_state=s, **o)
    b, _ = dpp_vfx_sampler(None, X, example_eval_L_linear, random_state=np.random.RandomState(s), **o)
    assert a == b, (s, a, b)
"""
