BUG = {'property': 'C23', 'file': 'exotic_dpps_core.py', 'edits': [('            nb_nodes_in_tree += 1\n\n        n0 = n1', '            nb_nodes_in_tree += 1\n            n0 = n1')], 'needs': 'a graph with a node whose neighbours are all visited before the tree is complete', 'breaks': 'the Aldous-Broder walk does not move when it meets a visited node: it never leaves a node whose neighbours are all in the tree'}
DEMO = r'''import multiprocessing as mp


def ends(f, seconds=20):
    p = mp.get_context('fork').Process(target=f)
    p.start()
    p.join(seconds)
    if p.is_alive():
        p.kill()
        p.join()
        return False
    return True


import networkx as nx
from dppy.exotic_dpps import UST


def run():
    u = UST(nx.path_graph(4))
    for seed in range(5):
        u.sample('Aldous-Broder', root=1, random_state=seed)


assert ends(run), 'the walk does not end'
'''
