BUG = {'property': 'C05', 'file': 'exact_sampling.py', 'edits': [('        - :func:`proj_dpp_sampler_eig_KuTa12 <proj_dpp_sampler_eig_KuTa12>`\n    """\n\n    rng = check_random_state(random_state)\n\n    # Initialization\n    V = eig_vecs.copy()\n', '        - :func:`proj_dpp_sampler_eig_KuTa12 <proj_dpp_sampler_eig_KuTa12>`\n    """\n\n    rng = check_random_state(random_state)\n\n    # Initialization\n    V = np.atleast_2d(eig_vecs)\n')], 'needs': 'mode GS_bis called with a matrix the caller (or a cache) keeps: a second sample from the same eigenvectors', 'breaks': 'the eigenvectors of the caller are overwritten'}
DEMO = r"""import numpy as np
from dppy.exact_sampling import proj_dpp_sampler_eig
V, _ = np.linalg.qr(np.random.RandomState(0).randn(8, 3))
W = V.copy()
proj_dpp_sampler_eig(V, 'GS_bis', random_state=0)
assert np.array_equal(V, W)
"""
