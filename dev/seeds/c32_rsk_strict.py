BUG = {'property': 'C32', 'file': 'exotic_dpps_core.py', 'edits': [('            if x >= row_P[-1]:\n                row_P.append(x)  # add the element at the end of the row of P\n                row_Q.append(it)  # record its position in the row of Q', '            if x > row_P[-1] or x == row_P[0]:\n                row_P.append(x)  # add the element at the end of the row of P\n                row_Q.append(it)  # record its position in the row of Q')], 'needs': 'a repeated smallest value in a row of several values', 'breaks': 'an item equal to the first of a row is appended to the row even when larger ones precede: the row is not ordered'}
DEMO = r'''from dppy.exotic_dpps_core import RSK
import itertools
for n in range(1, 6):
    for seq in itertools.product(range(3), repeat=n):
        P, Q = RSK(list(seq))
        assert [len(r) for r in P] == [len(r) for r in Q]
        assert sorted(x for r in P for x in r) == sorted(seq)
        assert sorted(x for r in Q for x in r) == list(range(1, n + 1))
        for r in P:
            assert all(a <= b for a, b in zip(r, r[1:])), (seq, P)
        for r, s in zip(P, P[1:]):
            assert len(s) <= len(r) and all(a < b for a, b in zip(r, s)), (seq, P)
'''
