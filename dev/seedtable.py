"""Markdown table of the planted bugs (for DESIGN.md)."""
import glob, importlib.util, os
for f in sorted(glob.glob('/verif/dev/seeds/*.py')):
    s = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    b = m.BUG
    print('| %s | %s | %s |' % (os.path.basename(f)[:-3], b['property'], ' '.join(b['breaks'].split())[:170]))
