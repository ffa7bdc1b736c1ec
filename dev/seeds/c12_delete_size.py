BUG = {'property': 'C12', 'file': 'mcmc_sampling.py', 'edits': [('''                chain.append(S1)
                size_S0 -= 1
''', '''                chain.append(S1)
                size_S0 = max(size_S0 - 1, 1)
''')], 'needs': 'add-exchange-delete chain that reaches the empty set by a deletion', 'breaks': 'the size of the current state is not updated with the state: from the empty set on, the moves use the wrong size'}
DEMO = r"""import numpy as np
from dppy.mcmc_sampling import add_exchange_delete_sampler
L = np.diag([.05, .04, .06])
try:
    chain = add_exchange_delete_sampler(L, s_init=[0], nb_iter=30000, random_state=np.random.RandomState(2))
except Exception as e:
    raise SystemExit('fails: %r' % e)
p = np.mean([not s for s in chain])
want = 1 / np.linalg.det(L + np.eye(3))
assert abs(p - want) < 0.04, (p, want)
"""
