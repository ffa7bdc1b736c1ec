BUG = {'property': 'C01', 'file': 'intermediate_sampling.py', 'edits': [("    DPP = FiniteDPP(kernel_type='likelihood', L_eig_dec=(E, U))\n    S_tilda = np.array(DPP.sample_exact(random_state=rng), dtype=int)\n\n    S = sigma_uniq[S_tilda].ravel().tolist()\n\n    intermediate_sample_info =", "    DPP = FiniteDPP(kernel_type='likelihood', L_eig_dec=(E, U))\n    S_tilda = np.array(DPP.sample_exact(), dtype=int)\n\n    S = sigma_uniq[S_tilda].ravel().tolist()\n\n    intermediate_sample_info =")], 'needs': 'alpha mode; global numpy state differs between the two seeded calls', 'breaks': 'the inner exact sample of the alpha sampler draws from the global generator'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
X = np.random.RandomState(0).randn(40, 4)
out = []
for g in range(6):
    np.random.seed(g)
    dpp = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
    out.append(dpp.sample_exact(mode='alpha', random_state=5, verbose=False, rls_oversample_bless=10, rls_oversample_alphadpp=10))
assert all(o == out[0] for o in out), out
"""
