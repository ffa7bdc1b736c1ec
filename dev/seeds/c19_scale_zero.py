BUG = dict(property='C19', file='beta_ensembles.py', edits=[("        params = {'loc': loc, 'scale': scale, 'size_N': size_N}", "        params = {'loc': loc, 'scale': scale or np.sqrt(2.0),\n                  'size_N': size_N}")],
           needs='HermiteEnsemble.sample_banded_model with the explicit degenerate scale 0',
           breaks='an explicit scale=0 (point mass at loc) is replaced by the default sqrt(2)')
DEMO = r"""import numpy as np
from dppy.beta_ensembles import HermiteEnsemble
for b in (0, 2):
    x = HermiteEnsemble(beta=b).sample_banded_model(loc=3.0, scale=0.0, size_N=5, random_state=3)
    assert np.allclose(x, 3.0), x
"""
