BUG = dict(property='C19', file='beta_ensembles.py', edits=[("                sampl = rng.gamma(shape=self.params['shape'],\n                                  scale=self.params['scale'],\n                                  size=self.params['size_N'])\n            else:\n                err_print = ('shape<=0.',\n                             'Here beta=0, hence shape=beta/2*(M-N+1)=0')\n                raise ValueError(' '.join(err_print))\n\n        else:  # if beta > 0\n            sampl = rm.mu_ref_gamma", "                sampl = rng.gamma(shape=self.params['shape'],\n                                  size=self.params['size_N'])\n            else:\n                err_print = ('shape<=0.',\n                             'Here beta=0, hence shape=beta/2*(M-N+1)=0')\n                raise ValueError(' '.join(err_print))\n\n        else:  # if beta > 0\n            sampl = rm.mu_ref_gamma")],
           needs='LaguerreEnsemble with beta=0, banded model, scale other than 1',
           breaks='the scale parameter is ignored for beta=0: the points follow Gamma(shape, 1)')
DEMO = r"""import numpy as np
from dppy.beta_ensembles import LaguerreEnsemble
x = LaguerreEnsemble(beta=0).sample_banded_model(shape=2.0, scale=1.0, size_N=50, random_state=3)
y = LaguerreEnsemble(beta=0).sample_banded_model(shape=2.0, scale=1000.0, size_N=50, random_state=3)
assert np.mean(y) > 50 * np.mean(x), (np.mean(x), np.mean(y))
"""
