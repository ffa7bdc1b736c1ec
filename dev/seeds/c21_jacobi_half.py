BUG = dict(property='C21', file='beta_ensembles.py', edits=[("                size_M1 = 2 / self.beta * a + size_N - 1\n                size_M2 = 2 / self.beta * b + size_N - 1\n", "                if size_M1 is None:\n                    size_M1 = 2 / self.beta * a + size_N - 1\n                if size_M2 is None:\n                    size_M2 = 2 / self.beta * b + size_N - 1\n")],
           needs='a banded Jacobi sample with exactly one of size_M1, size_M2 given',
           breaks='the given size is recorded next to a reference measure parameter that does not correspond to it')
DEMO = r"""import numpy as np
from dppy.beta_ensembles import JacobiEnsemble
for kw in (dict(size_M1=40), dict(size_M2=40)):
    j = JacobiEnsemble(beta=2)
    j.sample_banded_model(a=1.5, b=3., size_N=5, random_state=0, **kw)
    p = j.params
    assert np.isclose(p['a'], p['size_M1'] - p['size_N'] + 1) and np.isclose(p['b'], p['size_M2'] - p['size_N'] + 1)
"""
