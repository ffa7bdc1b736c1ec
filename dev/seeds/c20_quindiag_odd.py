BUG = {'property': 'C20', 'file': 'random_matrices.py', 'edits': [("""        L = sp.block_diag([*xi[::2, :, :], alpha[-1].conj()],
                          dtype=np.complex_)
        M = sp.block_diag([1.0, *xi[1::2, :, :]],
                          dtype=np.complex_)""", """        L = sp.block_diag(xi[::2, :, :],
                          dtype=np.complex_)
        M = sp.block_diag(xi[1::2, :, :],
                          dtype=np.complex_)""")],
       'needs': 'the banded circular model with an odd number of points', 'breaks': 'CircularEnsemble.sample_banded_model returns size_N - 1 points for odd size_N'}
DEMO = r"""from dppy.beta_ensembles import CircularEnsemble
for beta in (1, 2, 3):
    for n in (2, 3, 4, 5, 8, 9):
        e = CircularEnsemble(beta=beta)
        x = e.sample_banded_model(size_N=n, random_state=n)
        assert x.shape == (n,), (beta, n, x.shape)
"""
