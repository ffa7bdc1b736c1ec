BUG = {'property': 'C20', 'file': 'beta_ensemble_polynomial_potential.py', 'edits': [("            eig_vals = np.zeros((N, nb_gibbs_passes))", "            eig_vals = np.zeros((N, nb_gibbs_passes + 1))"),
       ("                eig_vals[:, p] = la", "                eig_vals[:, p + 1] = la")],
       'needs': 'sample_mcmc with return_chain_of_eig_vals', 'breaks': 'the chain has an additional column that is no configuration of the ensemble'}
DEMO = r"""import numpy as np
from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential
be = BetaEnsemblePolynomialPotential(beta=2, potential_V=np.poly1d([0.5, 0, 0]))
for n, g in ((4, 3), (7, 5)):
    x = be.sample_mcmc(N=n, nb_gibbs_passes=g, sample_exact_cond=True, return_chain_of_eig_vals=True, random_state=1)
    assert x.shape == (n, g), x.shape
"""
