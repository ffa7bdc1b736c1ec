BUG = {'property': 'C23', 'file': 'exotic_dpps_core.py', 'edits': [('        if visited[n1]:\n            pass  # continue the walk\n', '        if visited[n1]:  # continue the walk\n            if root is not None:\n                n1 = root\n')], 'needs': 'a root given, and a node all of whose neighbours other than the tree are farther from the root than one step', 'breaks': 'the walk is sent back to the root whenever it meets a visited node: nodes at distance two or more from the root are never reached when their neighbours are in the tree'}
DEMO = r'''import multiprocessing as mp


def ends(f, seconds=20):
    p = mp.get_context('fork').Process(target=f)
    p.start()
    p.join(seconds)
    if p.is_alive():
        p.kill()
        p.join()
        return False
    return True


import networkx as nx
from dppy.exotic_dpps import UST


def run():
    u = UST(nx.path_graph(4))
    for seed in range(8):
        u.sample('Aldous-Broder', root=0, random_state=seed)


assert ends(run), 'the walk does not end'
'''
