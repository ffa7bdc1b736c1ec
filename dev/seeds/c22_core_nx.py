BUG = {'property': 'C22', 'file': 'exotic_dpps_core.py', 'edits': [('import numpy as np\n', 'import networkx as nx\nimport numpy as np\n'), ("def ust_sampler_wilson(list_of_neighbors, root=None,\n                       random_state=None):\n    try:\n        import networkx as nx\n    except ImportError:\n        raise ValueError('The networkx package is required to sample spanning trees (see setup.py).')\n", 'def ust_sampler_wilson(list_of_neighbors, root=None,\n                       random_state=None):\n')], 'needs': 'an installation without networkx, which is an optional package', 'breaks': 'importing dppy.exotic_dpps fails without networkx, also for users of the descent processes and the Plancherel measure'}
DEMO = r'''import sys
sys.modules['networkx'] = None      # as if not installed
from dppy.exotic_dpps import DescentProcess, PoissonizedPlancherel
PoissonizedPlancherel(5).sample(random_state=0)
'''
