BUG = {'property': 'C17', 'file': 'finite_dpps.py', 'edits': [("            if not (self.X_data.size and self.X_data.ndim == 2):\n", "            if not self.X_data.size or self.X_data.ndim > 2:\n")],
       'needs': 'data given as a one-dimensional array', 'breaks': 'FiniteDPP(L_eval_X_data) accepts data that is not a matrix'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
for X in (np.arange(5.), np.zeros((0, 2)), np.zeros((2, 2, 2))):
    try:
        FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
    except ValueError:
        pass
    else:
        raise SystemExit('data of shape %s accepted' % (X.shape,))
FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, np.ones((3, 2))))
"""
