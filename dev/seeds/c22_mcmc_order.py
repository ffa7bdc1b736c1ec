BUG = {'property': 'C22', 'file': 'mcmc_sampling.py', 'edits': [('from dppy.utils import det_ST, check_random_state\n', 'import dppy.finite_dpps as finite_dpps\nfrom dppy.utils import check_random_state, det_ST\n'), ("    T_max = params.get('T_max', None)\n    size", "    T_max = params.get('T_max', None)\n    if isinstance(kernel, finite_dpps.FiniteDPP):\n        kernel = kernel.K if kernel.K is not None else kernel.L\n    size")], 'needs': 'dppy.mcmc_sampling is the first module of the package that is imported', 'breaks': 'importing dppy.mcmc_sampling before dppy.finite_dpps fails with ImportError because of the import cycle'}
DEMO = r'''import importlib
import subprocess
import sys
for m in ('mcmc_sampling', 'finite_dpps', 'exact_sampling', 'exotic_dpps', 'bless', 'intermediate_sampling'):
    subprocess.check_call([sys.executable, '-c', 'import dppy.' + m])
'''
