BUG = {'property': 'C12', 'file': 'mcmc_sampling.py', 'edits': [('''            if s in S1:
                S1.remove(s)  # S1 = S0 - s
            else:
                S1.append(s)  # S1 = SO + s
''', '''            if s in S1:
                S1.remove(s)  # S1 = S0 - s
            else:
                S1 = S0
                S1 += [s]  # S1 = SO + s
''')], 'needs': 'add-delete chain, a proposed addition', 'breaks': 'the proposal is added to the current state itself, which is also recorded in the chain: rejected additions stay and recorded states change later'}
DEMO = r"""import numpy as np
from dppy.mcmc_sampling import add_delete_sampler
L = np.diag([.2, 1., .3, .4])
chain = add_delete_sampler(L, s_init=[1], nb_iter=200, random_state=np.random.RandomState(2))
assert chain[0] == [1], chain[0]
for a, b in zip(chain, chain[1:]):
    assert len(set(a) ^ set(b)) <= 1 and len(set(a)) == len(a), (a, b)
p = np.mean([len(s) for s in chain])
assert p < 2.2, p
"""
