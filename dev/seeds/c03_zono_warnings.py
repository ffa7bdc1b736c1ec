BUG = {'property': 'C03', 'file': 'finite_dpps.py', 'edits': [("            warn('DPP defined via `A_zono`, apriori you want to use `sample_mcmc`, but you have called `sample_exact`')\n", "            simplefilter('once')\n            warn('DPP defined via `A_zono`, apriori you want to use `sample_mcmc`, but you have called `sample_exact`')\n"), ('from warnings import warn\n', 'from warnings import warn, simplefilter\n')], 'needs': 'sample_exact on a DPP defined by A_zono', 'breaks': 'the warning filters of the process change'}
DEMO = r"""import warnings
import numpy as np
from dppy.finite_dpps import FiniteDPP
A = np.random.RandomState(0).randn(3, 6)
dpp = FiniteDPP('correlation', projection=True, A_zono=A)
before = list(warnings.filters)
dpp.sample_exact(random_state=1)
assert list(warnings.filters) == before
"""
