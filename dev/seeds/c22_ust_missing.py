BUG = {'property': 'C22', 'file': 'exotic_dpps.py', 'edits': [("        try:\n            import networkx as nx\n            self.nx = nx\n        except ImportError:\n            raise ValueError('The networkx package is required to sample spanning trees (see setup.py).')\n", '        import networkx as nx\n        self.nx = nx\n')], 'needs': 'an installation without networkx', 'breaks': 'UST fails with ModuleNotFoundError instead of the documented ValueError that names the package'}
DEMO = r'''import sys
sys.modules['networkx'] = None      # as if not installed
from dppy.exotic_dpps import UST
try:
    UST(None)
except ValueError as e:
    assert 'networkx' in str(e)
else:
    raise SystemExit('no error')
'''
