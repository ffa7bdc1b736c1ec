BUG = {'property': 'C18', 'file': 'beta_ensembles.py', 'edits': [("        elif (size_M1 >= size_N) and (size_M2 >= size_N):\n", "        elif min(size_M1, size_M2) >= size_N or size_M1 + size_M2 >= 2 * size_N:\n")],
       'needs': 'the banded Jacobi model with one of the two sizes below N and the other one large', 'breaks': 'JacobiEnsemble.sample_banded_model samples with a non-positive parameter of the reference beta law'}
DEMO = r"""from dppy.beta_ensembles import JacobiEnsemble
je = JacobiEnsemble(beta=2)
for m1, m2 in ((9, 30), (30, 9), (5, 5)):
    try:
        je.sample_banded_model(size_N=10, size_M1=m1, size_M2=m2, random_state=0)
    except ValueError as e:
        assert 'M1, M2' in str(e)
    else:
        raise SystemExit('sizes %d, %d accepted' % (m1, m2))
assert not je.list_of_samples
je.sample_banded_model(size_N=10, size_M1=10, size_M2=10, random_state=0)
"""
