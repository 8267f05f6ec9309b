"""Environment of every check: must be imported before NumPy.

Pins the numerical libraries to one thread, forbids byte code in /repo, makes
sure that `elphmod` really is the working tree in /repo, and moves into a
scratch directory so that nothing the code under test writes can land anywhere
else.
"""

import atexit
import os
import shutil
import sys
import tempfile

for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[var] = '1'

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

SCRATCH = tempfile.mkdtemp(prefix='elphmod-mc-')
_owner = os.getpid()

def _cleanup():
    if os.getpid() == _owner:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)

atexit.register(_cleanup)

os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.mkdir(os.environ['MPLCONFIGDIR'])

for _path in (VERIF, REPO):
    if _path in sys.path:
        sys.path.remove(_path)

sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

os.chdir(SCRATCH)

import numpy as np

np.seterr(all='ignore')

def scratch(name='case'):
    """Create new empty directory below the scratch directory."""

    return tempfile.mkdtemp(prefix=name + '-', dir=SCRATCH)

def import_elphmod():
    """Import serial `elphmod` from the working tree."""

    import elphmod

    where = os.path.dirname(os.path.abspath(elphmod.__file__))

    assert where == os.path.join(REPO, 'elphmod'), where

    return elphmod
