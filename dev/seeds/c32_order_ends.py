BUG = {'property': 'C32', 'file': 'multivariate_jacobi_ope.py', 'edits': [('                filter(lambda x: m in x,', '                filter(lambda x: m in (x[0], x[-1]),')], 'needs': 'dimension three or more', 'breaks': 'multi-indices whose largest degree is in a middle dimension only are left out of the ordering'}
DEMO = r'''from dppy.multivariate_jacobi_ope import compute_ordering
import itertools
for d in (1, 2, 3, 4):
    for m in (1, 2, 3):
        o = compute_ordering(m ** d, d)
        assert sorted(o) == sorted(itertools.product(range(m), repeat=d)), (m, d)
'''
