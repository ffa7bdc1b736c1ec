BUG = {'property': 'C06', 'file': 'finite_dpps.py', 'edits': [("        self.size_k_dpp = size\n        params['size'] = size\n\n        return self.sample_mcmc(self.sampling_mode, **params)\n", "        if size != self.size_k_dpp:\n            self.flush_samples()\n\n        self.size_k_dpp = size\n        params['size'] = size\n\n        return self.sample_mcmc(self.sampling_mode, **params)\n")], 'needs': 'k-DPP chains of different sizes from one object', 'breaks': 'earlier samples disappear when a chain of another size is run'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
Phi = np.random.RandomState(0).randn(6, 6)
dpp = FiniteDPP('likelihood', L=Phi.T.dot(Phi))
dpp.sample_mcmc_k_dpp(2, random_state=0)
dpp.sample_mcmc_k_dpp(3, random_state=0)
assert len(dpp.list_of_samples) == 2
"""
