BUG = {'property': 'C26', 'file': 'exotic_dpps_core.py', 'edits': [('        if visited[n1]:\n            pass  # continue the walk', '        if visited[n1]:  # continue the walk from the tree\n            n1 = rng.choice(np.flatnonzero(visited))')], 'needs': 'a graph that is not complete and many samples', 'breaks': 'the Aldous-Broder walk jumps to a random visited node: trees are still spanning but not uniform'}
DEMO = r'''from collections import Counter
import numpy as np
import networkx as nx
from dppy.exotic_dpps import UST


def deviation(g, root, mode, n=4000, seed=0):
    rng = np.random.RandomState(seed)
    u = UST(g)
    trees = Counter()
    for _ in range(n):
        u.flush_samples()
        u.sample(mode, root=root, random_state=rng)
        t = u.list_of_samples[-1]
        assert nx.is_tree(t) and set(t) == set(g), 'not a spanning tree'
        trees[frozenset(tuple(sorted(e)) for e in t.edges())] += 1
    nb = int(round(np.linalg.det(nx.laplacian_matrix(g).toarray()[1:, 1:].astype(float))))
    return max(abs(trees.get(t, 0) / n - 1. / nb) for t in trees), nb, len(trees)



kite = nx.Graph([(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)])
for root in (0, 1):
    d, nb, seen = deviation(kite, root, 'Aldous-Broder', 12000)
    assert nb == seen and d < 0.017, (d, nb, seen)
'''
