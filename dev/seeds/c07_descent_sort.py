BUG = {'property': 'C07', 'file': 'exotic_dpps.py', 'edits': [('        sampl = self.list_of_samples[-1]\n        ax.scatter(sampl,\n', '        sampl = self.list_of_samples[-1]\n        if vs_bernoullis and len(sampl) == 0:\n            self.list_of_samples.pop()\n        ax.scatter(sampl,\n')], 'needs': 'the last sample of the process is empty', 'breaks': 'plotting an empty realization removes it from the record'}
DEMO = r"""import matplotlib; matplotlib.use('agg')
from dppy.exotic_dpps import DescentProcess
d = DescentProcess()
for s in range(40):
    d.sample(size=2, random_state=s)
    if not d.list_of_samples[-1]:
        break
n = len(d.list_of_samples)
d.plot()
assert len(d.list_of_samples) == n
"""
