BUG = {'property': 'C10', 'file': 'exact_sampling.py', 'edits': [("        if len(sampl) == size:\n            break", "        if len(sampl) == size or size_rejection_iter > 5:\n            break")],
       'needs': 'a k-DPP drawn with mode vfx that needs more than six size rejections', 'breaks': 'k_dpp_vfx_sampler returns the last sample whatever its size'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
for s in range(30):
    X = np.random.RandomState(s).randn(20, 8)
    D = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
    for k in (1, 2, 7):
        try:
            x = D.sample_exact_k_dpp(size=k, mode='vfx', random_state=s, verbose=False)
        except ValueError:
            continue
        assert len(x) == k, (s, k, len(x))
"""
