BUG = {'property': 'C08', 'file': 'random_matrices.py', 'edits': [("    elif haar_mode == 'QR':\n", '    elif haar_mode:\n')], 'needs': 'an unknown haar_mode', 'breaks': 'an unknown haar_mode silently runs the QR algorithm'}
DEMO = r"""from dppy.beta_ensembles import CircularEnsemble
c = CircularEnsemble(2)
c.sample_full_model(size_N=4, haar_mode='QR', random_state=0)
try:
    c.sample_full_model(size_N=4, haar_mode='Hermit', random_state=0)
except ValueError:
    pass
else:
    raise AssertionError('unknown haar_mode accepted')
"""
