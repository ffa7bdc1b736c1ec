BUG = dict(property='C21', file='beta_ensembles.py', edits=[("                size_M = 2 / self.beta * shape + size_N - 1\n", "                size_M = scale / self.beta * shape + size_N - 1\n")],
           needs='a banded Laguerre sample with scale other than 2 and size_M left out',
           breaks='the size M recorded for the reference measure is not 2/beta shape + N - 1 when scale differs from 2, so normalization is off')
DEMO = r"""import numpy as np
from dppy.beta_ensembles import LaguerreEnsemble
l = LaguerreEnsemble(beta=3)
l.sample_banded_model(shape=6., scale=5., size_N=4, random_state=0)
assert np.isclose(l.params['size_M'], 2 / 3 * 6 + 4 - 1)
"""
