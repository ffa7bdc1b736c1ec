BUG = {'property': 'C06', 'file': 'exotic_dpps.py', 'edits': [('        sampl = young_diag - np.arange(0.5, young_diag.size)\n        self.list_of_samples.append(sampl.tolist())\n', '        if young_diag.size:\n            sampl = young_diag - np.arange(0.5, young_diag.size)\n            self.list_of_samples.append(sampl.tolist())\n')], 'needs': 'the Poisson number of points is 0', 'breaks': 'no sample is recorded while the Young diagram is: the two lists get out of step'}
DEMO = r"""from dppy.exotic_dpps import PoissonizedPlancherel
pp = PoissonizedPlancherel(theta=0.5)
for s in range(20):
    pp.sample(random_state=s)
assert len(pp.list_of_samples) == 20 == len(pp.list_of_young_diag), len(pp.list_of_samples)
"""
