BUG = {'property': 'C26', 'file': 'exotic_dpps.py', 'edits': [('        carries = 1 + np.where(B[:-1] > B[1:])[0]', '        carries = 1 + np.where(B[:-1] > A[1:])[0]')], 'needs': 'the joint law of neighbouring positions (marginals stay right)', 'breaks': 'previous remainders are compared with the digit instead of the new remainder: positions are not the carries of the sum'}
DEMO = r'''import numpy as np
from dppy.exotic_dpps import CarriesProcess
c = CarriesProcess(base=2)
both = np.zeros(2)
rng = np.random.RandomState(2)
for _ in range(400):
    c.sample(size=51, random_state=rng)
    s = set(c.list_of_samples[-1])
    both += [sum(i + 1 in s for i in s), 49]
# in base 2 a carry at i sets remainder 0, and no carry can follow
assert both[0] == 0, both
'''
