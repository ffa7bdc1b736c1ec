BUG = {'property': 'C26', 'file': 'exotic_dpps.py', 'edits': [('        self.edges = list(self.graph.edges())\n', '        self.edges = sorted(self.graph.edges())\n')], 'needs': 'a graph whose edges were not added in sorted order, and a mode that samples from the kernel', 'breaks': 'items of the DPP are columns of the incidence matrix, whose order is that of graph.edges(): the edges returned do not form a spanning tree'}
DEMO = r'''import networkx as nx
from dppy.exotic_dpps import UST
g = nx.Graph([(0, 3), (3, 1), (1, 2), (2, 3)])
g = nx.relabel_nodes(g, {}, copy=True)
g.add_edge(0, 1)
u = UST(g)
for seed in range(60):
    u.flush_samples()
    u.sample('GS', random_state=seed)
    assert nx.is_tree(u.list_of_samples[0]) and len(u.list_of_samples[0]) == 4
'''
