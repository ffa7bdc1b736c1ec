BUG = dict(property='C21', file='beta_ensembles.py', edits=[("        return points / np.sqrt(self.params['size_N'])\n", "        return points / np.sqrt(len(points))\n")],
           needs='normalizing a part of the points of a sample',
           breaks='normalization of Ginibre points reads the number of points given instead of the recorded size N')
DEMO = r"""import numpy as np
from dppy.beta_ensembles import GinibreEnsemble
g = GinibreEnsemble()
x = g.sample_full_model(size_N=16, random_state=0)
assert np.allclose(g.normalize_points(x[:5]), x[:5] / 4)
"""
