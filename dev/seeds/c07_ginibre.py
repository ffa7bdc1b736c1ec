BUG = {'property': 'C07', 'file': 'beta_ensembles.py', 'edits': [('            points = self.list_of_samples[-1].copy()  # Pick last sample\n            if normalization:\n                points = self.normalize_points(points)\n\n        fig, ax = plt.subplots(1, 1)\n\n        title = self._str_title\n', '            points = self.list_of_samples[-1]  # Pick last sample\n            if normalization:\n                points = self.normalize_points(points)\n\n        fig, ax = plt.subplots(1, 1)\n\n        title = self._str_title\n'), ("        return points / np.sqrt(self.params['size_N'])\n", "        return np.divide(points, np.sqrt(self.params['size_N']), out=points)\n")], 'needs': 'a normalized display, then the sample is read again', 'breaks': 'the recorded sample is rescaled by plotting it'}
DEMO = r"""import numpy as np
import matplotlib; matplotlib.use('agg')
from dppy.beta_ensembles import GinibreEnsemble
g = GinibreEnsemble()
s = g.sample_full_model(size_N=9, random_state=0).copy()
g.plot(normalization=True)
assert np.array_equal(g.list_of_samples[-1], s)
"""
