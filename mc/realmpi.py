"""Execute scenarios with real MPI (started via mpirun by `batch`)."""

import os
import pickle
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

OPTIONS = dict(
    HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
    MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
    OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
    OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
    OMPI_MCA_pml='ob1', OMPI_MCA_plm='isolated',
    OMPI_MCA_hwloc_base_binding_policy='none',
    OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
    )

def batch(size, cases, folder, timeout):
    """Run list of scenarios (name, options) on given number of processes.

    Returns
    -------
    list of list
        For each rank, results of all scenarios.
    """
    with open(os.path.join(folder, 'cases'), 'wb') as data:
        pickle.dump(cases, data)

    environ = dict(os.environ, **OPTIONS)
    environ['TMPDIR'] = folder

    process = subprocess.Popen(['mpirun', '-n', str(size), sys.executable,
        '-W', 'ignore', os.path.abspath(__file__), folder], env=environ,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        start_new_session=True)

    try:
        out = process.communicate(timeout=timeout)[0]
    except BaseException:
        import signal
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        process.wait()
        raise

    if process.returncode:
        return out.decode(errors='replace')[-3000:]

    results = []

    for rank in range(size):
        with open(os.path.join(folder, 'results%d' % rank), 'rb') as data:
            results.append(pickle.load(data))

    return results

def main(folder):
    from mc import env
    elphmod = env.import_elphmod()

    import importlib
    import traceback
    import numpy as np

    for name in ('MPI', 'bravais', 'diagrams', 'dispersion', 'dos', 'el',
            'elel', 'eliashberg', 'elph', 'md', 'misc', 'occupations', 'ph',
            'plot', 'models.chain', 'models.graphene', 'models.tas2'):
        importlib.import_module('elphmod.' + name)

    from mc import scenarios

    elphmod.misc.verbosity = 0
    comm = elphmod.MPI.comm

    stdout = sys.stdout
    sys.stdout = open(os.devnull, 'w')

    results = []

    with open(os.path.join(folder, 'cases'), 'rb') as data:
        cases = pickle.load(data)

    for n, (name, options) in enumerate(cases):
        where = os.path.join(folder, 'run%d' % n)

        if comm.rank == 0:
            os.mkdir(where)

        comm.Barrier()
        np.random.seed(1000 + comm.rank)

        try:
            results.append(scenarios.SCENARIOS[name](elphmod, comm.rank,
                lambda x: os.path.join(where, x), **options))
        except BaseException:
            sys.stdout = stdout
            print('rank %d: %s %s' % (comm.rank, name, options))
            traceback.print_exc(file=sys.stdout)
            sys.stdout.flush()
            elphmod.MPI.MPI.COMM_WORLD.Abort(1)

        comm.Barrier()

        if comm.rank == 0:
            shutil.rmtree(where)

    with open(os.path.join(folder, 'results%d' % comm.rank), 'wb') as data:
        pickle.dump(results, data)

if __name__ == '__main__':
    main(sys.argv[1])
