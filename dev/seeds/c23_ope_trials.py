BUG = {'property': 'C23', 'file': 'multivariate_jacobi_ope.py', 'edits': [('            for trial in range(nb_trials_max):\n\n                # Propose a point ~ 1/N K(x,x) w(x)', '            trial = 0\n            while trial < nb_trials_max:\n\n                # Propose a point ~ 1/N K(x,x) w(x)'), ('                # accept: x_n = x, or reject\n                if rng.rand() < schur / K_xx:', '                # accept: x_n = x, or reject\n                if schur <= 0:\n                    trial += 1\n                elif rng.rand() < schur / K_xx:')], 'needs': 'proposals that are rejected again and again', 'breaks': 'rejected proposals are not counted: the loop over proposals is not bounded by nb_trials_max any more'}
DEMO = r'''import multiprocessing as mp


def ends(f, seconds=20):
    p = mp.get_context('fork').Process(target=f)
    p.start()
    p.join(seconds)
    if p.is_alive():
        p.kill()
        p.join()
        return False
    return True


import numpy as np
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE


class Reject(np.random.RandomState):
    """acceptance variates equal to one, in the loop of the sampler itself"""
    def rand(self, *a):
        return np.ones(a) if a else 1.0


def run():
    ope = MultivariateJacobiOPE(3, 0.2 * np.ones((2, 2)))
    ope.sample_chain_rule_proposal = lambda random_state=None: np.array([0.1, 0.2])
    try:
        ope.sample(nb_trials_max=5, random_state=Reject(0))
    except ValueError:
        pass


assert ends(run), 'the loop over proposals is not bounded'
'''
