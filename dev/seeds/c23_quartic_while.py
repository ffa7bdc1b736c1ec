BUG = {'property': 'C23', 'file': 'beta_ensemble_polynomial_potential_core.py', 'edits': [('    for iter_ in range(nb_iter_max):\n', '    iter_ = 0\n    while iter_ < nb_iter_max:\n')], 'needs': 'a potential for which no proposal is accepted (coefficients that make the ratio NaN)', 'breaks': 'the counter of proposals is never increased: the loop is not bounded any more'}
DEMO = r'''import multiprocessing as mp


def ends(f, seconds=20):
    p = mp.get_context('fork').Process(target=f)
    p.start()
    p.join(seconds)
    if p.is_alive():
        p.kill()
        p.join()
        return False
    return True


import numpy as np
from unittest import mock
from dppy.beta_ensemble_polynomial_potential_core import sampler_exact_convex_quartic


class Never(np.random.RandomState):
    """variates that are never accepted"""
    def rand(self, *a):
        return np.ones(a)


def run():
    try:
        sampler_exact_convex_quartic(np.poly1d([1, 0, 1, 0, 0]), random_state=Never(0))
    except Exception:
        pass


assert ends(run), 'the loop over proposals is not bounded'
'''
