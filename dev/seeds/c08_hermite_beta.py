BUG = {'property': 'C08', 'file': 'random_matrices.py', 'edits': [('    if beta == 1:\n        A = rng.randn(N, M)\n\n    elif beta == 2:\n        A = rng.randn(N, M) + 1j * rng.randn(N, M)\n\n    elif beta == 4:\n', '    if beta == 1:\n        A = rng.randn(N, M)\n\n    elif beta == 2:\n        A = rng.randn(N, M) + 1j * rng.randn(N, M)\n\n    elif beta >= 3:\n')], 'needs': 'a full Laguerre model with beta=3 or beta > 4', 'breaks': 'a full matrix model that does not exist returns points of the beta=4 model'}
DEMO = r"""from dppy.beta_ensembles import LaguerreEnsemble
for b in (3, 5, 2.5, 0.5):
    try:
        LaguerreEnsemble(b).sample_full_model(size_N=4, size_M=6, random_state=0)
    except ValueError:
        continue
    raise AssertionError('beta=%s accepted' % b)
"""
