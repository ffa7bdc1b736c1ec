BUG = dict(property='C15', file='finite_dpps.py', edits=[("            else:\n                self.compute_L()\n                chain = dpp_sampler_mcmc(self.L, self.sampling_mode, **params)\n\n        elif self.sampling_mode in ('AED', 'AD'):", "            else:\n                if self.K is None or self.kernel_type == 'likelihood':\n                    self.compute_L()\n                chain = dpp_sampler_mcmc(self.K if self.L is None else self.L, self.sampling_mode, **params)\n\n        elif self.sampling_mode in ('AED', 'AD'):")],
           needs='exchange Markov chain on a non projection DPP given by its correlation kernel, or whose correlation kernel has been computed before',
           breaks='the exchange chain targets the correlation kernel instead of the likelihood kernel')
DEMO = r"""import numpy as np
import dppy.finite_dpps as F
seen = []
orig = F.dpp_sampler_mcmc
F.dpp_sampler_mcmc = lambda kernel, *a, **k: (seen.append(kernel), orig(kernel, *a, **k))[1]
K = np.array([[.5, .2, 0], [.2, .4, .1], [0, .1, .6]])
d = F.FiniteDPP('correlation', K=K)
d.sample_mcmc('E', size=2, nb_iter=3, random_state=1)
assert np.allclose(seen[-1], K.dot(np.linalg.inv(np.eye(3) - K)))
"""
