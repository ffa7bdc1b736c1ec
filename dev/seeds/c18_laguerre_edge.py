BUG = {'property': 'C18', 'file': 'beta_ensembles.py', 'edits': [("        if size_M >= size_N:\n", "        if size_M >= size_N - 1:\n")],
       'needs': 'the full Laguerre model with M = N - 1 rows', 'breaks': 'LaguerreEnsemble.sample_full_model accepts M = N - 1'}
DEMO = r"""from dppy.beta_ensembles import LaguerreEnsemble
le = LaguerreEnsemble(beta=1)
try:
    le.sample_full_model(size_N=10, size_M=9, random_state=0)
except ValueError:
    pass
else:
    raise SystemExit('M < N accepted')
assert not le.list_of_samples
le.sample_full_model(size_N=10, size_M=10, random_state=0)
"""
