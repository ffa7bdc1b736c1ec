BUG = {'property': 'C32', 'file': 'exotic_dpps_core.py', 'edits': [('from bisect import bisect_right  # for RSK', 'from bisect import bisect_left  # for RSK'), ('                ind_insert = bisect_right(row_P, x)', '                ind_insert = bisect_left(row_P, x)')], 'needs': 'a sequence with repeated values followed by a smaller place in the row', 'breaks': 'an equal value is bumped instead of the first larger one: columns of the insertion tableau are not strictly increasing'}
DEMO = r'''from dppy.exotic_dpps_core import RSK
import itertools
for n in range(1, 6):
    for seq in itertools.product(range(3), repeat=n):
        P, Q = RSK(list(seq))
        assert [len(r) for r in P] == [len(r) for r in Q]
        assert sorted(x for r in P for x in r) == sorted(seq)
        assert sorted(x for r in Q for x in r) == list(range(1, n + 1))
        for r in P:
            assert all(a <= b for a, b in zip(r, r[1:])), (seq, P)
        for r, s in zip(P, P[1:]):
            assert len(s) <= len(r) and all(a < b for a, b in zip(r, s)), (seq, P)
'''
