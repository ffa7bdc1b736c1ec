BUG = {'property': 'C04', 'file': 'exotic_dpps.py', 'edits': [('        self.list_of_samples = []\n        self.size = 100\n', '        self.size = 100\n'), ('class Descent(metaclass=ABCMeta):\n', 'class Descent(metaclass=ABCMeta):\n\n    list_of_samples = []\n')], 'needs': 'two descent processes alive, both sampled', 'breaks': 'all descent processes share one list of samples'}
DEMO = r"""from dppy.exotic_dpps import DescentProcess, CarriesProcess
a, b = DescentProcess(), CarriesProcess(5)
a.sample(size=20, random_state=0)
assert len(b.list_of_samples) == 0
"""
