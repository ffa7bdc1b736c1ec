BUG = dict(property='C21', file='beta_ensembles.py', edits=[("        params = {'loc': 0.0, 'scale': np.sqrt(2.0), 'size_N': size_N}\n", "        params = {'size_N': size_N}\n")],
           needs='a banded sample with explicit loc or scale, then a full-model sample on the same object',
           breaks='the full model keeps the loc and scale recorded for an earlier banded sample, and for beta = 0 draws with them')
DEMO = r"""import numpy as np
from dppy.beta_ensembles import HermiteEnsemble
h = HermiteEnsemble(beta=0)
h.sample_banded_model(loc=50., scale=1e-3, size_N=20, random_state=0)
x = h.sample_full_model(size_N=20, random_state=0)
assert np.allclose(x, np.random.RandomState(0).normal(0, np.sqrt(2), 20))
"""
