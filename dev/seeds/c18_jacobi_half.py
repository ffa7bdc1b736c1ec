BUG = {'property': 'C18', 'file': 'multivariate_jacobi_ope.py', 'edits': [("        elif dim >= 2 and not np.all(np.abs(jacobi_params) <= 0.5):", "        elif dim >= 2 and not np.all(jacobi_params <= 0.5):")],
       'needs': 'a Jacobi parameter below -1/2 in dimension at least 2', 'breaks': 'MultivariateJacobiOPE accepts parameters outside of [-1/2, 1/2]'}
DEMO = r"""import numpy as np
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
for p in (-0.8, 0.8):
    try:
        MultivariateJacobiOPE(4, np.array([[0.2, p], [0.1, -0.3]]))
    except ValueError:
        pass
    else:
        raise SystemExit('parameter %s accepted' % p)
MultivariateJacobiOPE(4, np.array([[0.5, -0.5], [0., 0.]]))
"""
