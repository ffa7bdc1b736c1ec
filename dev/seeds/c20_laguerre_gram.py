BUG = {'property': 'C20', 'file': 'random_matrices.py', 'edits': [("""    if beta == 1:
        A = rng.randn(N, M)

    elif beta == 2:
        A = rng.randn(N, M) + 1j * rng.randn(N, M)
""", """    if beta == 1:
        A = rng.randn(N, M)

    elif beta == 2:
        A = rng.randn(M, N) + 1j * rng.randn(M, N)
""")],
       'needs': 'the full Laguerre model with beta = 2 and M different from N', 'breaks': 'M points (M - N of them numerically 0) instead of N'}
DEMO = r"""from dppy.beta_ensembles import LaguerreEnsemble
for beta in (1, 2, 4):
    for n, m in ((3, 3), (3, 5), (4, 9)):
        e = LaguerreEnsemble(beta=beta)
        x = e.sample_full_model(size_N=n, size_M=m, random_state=0)
        assert x.shape == (n,) or beta == 4 and x.shape == (2 * n,), (beta, n, m, x.shape)
"""
