BUG = {'property': 'C04', 'file': 'beta_ensembles.py', 'edits': [("        self.params = {'size_N': 10}  # Number of points and ref measure params\n", '        self.params = params  # Number of points and ref measure params\n'), ('    def __init__(self, beta=2):\n\n        if not (beta >= 0):', "    def __init__(self, beta=2, params={'size_N': 10}):\n\n        if not (beta >= 0):")], 'needs': 'two ensembles with different sizes, the first one displayed after the second was sampled', 'breaks': 'parameters of one ensemble are overwritten by sampling another'}
DEMO = r"""from dppy.beta_ensembles import HermiteEnsemble, GinibreEnsemble
a, b = HermiteEnsemble(2), GinibreEnsemble()
a.sample_full_model(size_N=7, random_state=0)
b.sample_full_model(size_N=3, random_state=0)
assert a.params['size_N'] == 7
"""
