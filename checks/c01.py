"""C01: results do not depend on the number and placement of processes."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import shutil
import numpy as np

from mc import parallel, realmpi, scenarios, simmpi
from mc.common import Check, Violation, require, digest

check = Check('C01', 'model_checking',
    rule='all scenarios with all combinations of their options; numbers of '
    'processes 2 to 4 with all distributions of processes onto nodes and 5 to '
    '7 with selected ones; result on each rank compared with serial run; '
    'trivial: no result promised beyond rank 0; conformance: same scenarios '
    'with real MPI', timeout=120,
    assumptions=['MPI library is correct', 'simulated collectives agree with '
    'real ones (validated by running all scenarios with mpirun)'])

@check.family
def scenario(ctx, name, options, sizes):
    want = parallel.reference(name, options)

    for size in sizes:
        if size <= 4:
            nodes = list(parallel.partitions(size))
        else:
            nodes = [[0] * size, list(range(size)),
                [i % 2 for i in range(size)],
                [i // 2 for i in range(size)]]

        for node in nodes:
            u = simmpi.universe(size)

            try:
                got = parallel.once(size, name, options, nodes=node)
            except (simmpi.MPIError, simmpi.Deadlock) as e:
                raise Violation('%d processes on nodes %s: %s: %s'
                    % (size, node, type(e).__name__, e))

            d = parallel.compare(got, want)

            if d:
                raise Violation('%d processes on nodes %s: %s' % (size, node,
                    d))

            ctx.states += len(u.states)
            ctx.transitions += u.transitions
            ctx.add('executions')

            if not u.node_splits:
                break # placement of processes is irrelevant

    undefined = isinstance(want, str) and want == 'undefined'

    ctx.outcome([name, str(want)[:2000]],
        nontrivial=want is not None and not undefined)

@check.family
def conformance(ctx, size, part, parts, timeout):
    """Simulation agrees with real MPI."""

    cases = [(name, options) for name, f in scenarios.SCENARIOS.items()
        for options in f.options][part::parts]

    folder = env.scratch('mpirun')

    try:
        results = realmpi.batch(size, cases, folder,
            timeout - 60)
    finally:
        shutil.rmtree(folder, ignore_errors=True)

    require(isinstance(results, list), 'mpirun -n %d failed: %s', size,
        results)

    for n, (name, options) in enumerate(cases):
        # serial results have been compared with simulation
        want = parallel.reference(name, options)
        d = parallel.compare([r[n] for r in results], want)
        require(not d, 'mpirun -n %d: %s %s: %s', size, name, options, d)
        ctx.traces += 1

    ctx.outcome([size, part])

@check.cases
def enumerate_cases(tier):
    parts = 2

    for size in (4, 3, 2) if tier == 'quick' else (6, 5, 4, 3, 2):
        for part in range(parts):
            yield 'conformance', dict(size=size, part=part, parts=parts,
                timeout=400)

    for name, f in scenarios.SCENARIOS.items():
        for options in f.options:
            yield 'scenario', dict(name=name, options=options,
                sizes=[2, 3, 4, 5] if tier == 'quick'
                else [2, 3, 4, 5, 6, 7, 8])

check.main()
