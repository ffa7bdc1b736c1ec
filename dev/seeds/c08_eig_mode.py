BUG = {'property': 'C08', 'file': 'exact_sampling.py', 'edits': [("        elif mode == 'KuTa12':  # cf Kulesza-Taskar\n", "        elif mode.startswith('KuTa'):  # cf Kulesza-Taskar\n")], 'needs': 'an unknown mode that starts like KuTa12', 'breaks': 'an unknown mode is taken for KuTa12'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
V, _ = np.linalg.qr(np.random.RandomState(0).randn(8, 3))
for m in ('KuTa12b', 'KuTa', 'gs'):
    try:
        FiniteDPP('correlation', projection=True, K_eig_dec=(np.ones(3), V)).sample_exact(m, random_state=0)
    except ValueError:
        continue
    raise AssertionError(m)
"""
