"""Check that everything needed is there (nothing has to be built)."""

import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import env, poison

elphmod = env.import_elphmod()

assert poison.on(), 'NumPy memory cannot be poisoned'
assert shutil.which('mpirun')

print('ready')
