BUG = {'property': 'C26', 'file': 'exotic_dpps_core.py', 'edits': [('        n1 = rng.choice(list_of_neighbors[n0])  # size=1)[0]\n\n        if state[n1] == -1:', '        # (a step straight back would be erased at once)\n        nexts = [v for v in list_of_neighbors[n0] if v not in path[-2:-1]]\n        n1 = rng.choice(nexts or list_of_neighbors[n0])  # size=1)[0]\n\n        if state[n1] == -1:')], 'needs': 'a graph where nodes have different numbers of neighbours, and many samples', 'breaks': 'Wilson walk never steps straight back: branches are not loop-erased random walks, the tree is not uniform'}
DEMO = r'''from collections import Counter
import numpy as np
import networkx as nx
from dppy.exotic_dpps import UST


def deviation(g, root, mode, n=4000, seed=0):
    rng = np.random.RandomState(seed)
    u = UST(g)
    trees = Counter()
    for _ in range(n):
        u.flush_samples()
        u.sample(mode, root=root, random_state=rng)
        t = u.list_of_samples[-1]
        assert nx.is_tree(t) and set(t) == set(g), 'not a spanning tree'
        trees[frozenset(tuple(sorted(e)) for e in t.edges())] += 1
    nb = int(round(np.linalg.det(nx.laplacian_matrix(g).toarray()[1:, 1:].astype(float))))
    return max(abs(trees.get(t, 0) / n - 1. / nb) for t in trees), nb, len(trees)



kite = nx.Graph([(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)])
for root in (0, 1):
    d, nb, seen = deviation(kite, root, 'Wilson', 12000)
    assert nb == seen and d < 0.017, (d, nb, seen)
'''
