BUG = {'property': 'C10', 'file': 'exact_sampling.py', 'edits': [("        if len(sampl) == size:\n            sampl_out = sampl\n", "        if len(sampl) >= size and (len(sampl) == size or trial_count_overall > 3):\n            sampl_out = sampl\n")],
       'needs': 'a k-DPP drawn with mode alpha in which the first four inner samples do not have the size', 'breaks': 'alpha_k_dpp_sampler can return a larger sample'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
for s in range(25):
    X = np.random.RandomState(s).randn(30, 10)
    D = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
    try:
        x = D.sample_exact_k_dpp(size=3, mode='alpha', random_state=s, verbose=False, early_stop=True)
    except ValueError:
        continue
    assert len(x) == 3, (s, len(x))
"""
