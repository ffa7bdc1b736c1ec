BUG = {'property': 'C17', 'file': 'utils.py', 'edits': [("    idx = np.arange(min(20, array.shape[0]))\n    M = array", "    idx = np.arange(min(20, array.shape[0] // 2))\n    M = array")],
       'needs': 'a small kernel that is only asymmetric outside of its leading half', 'breaks': 'is_symmetric looks at the leading half of a small matrix only'}
DEMO = r"""import numpy as np
from dppy.finite_dpps import FiniteDPP
L = np.eye(8)
L[6, 7] = 0.5
try:
    FiniteDPP('likelihood', L=L)
except ValueError:
    pass
else:
    raise SystemExit('asymmetric kernel accepted')
"""
