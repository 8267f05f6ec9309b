"""C02: results do not depend on the relative timing of processes."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools
import shutil

from mc import parallel, scenarios, simmpi
from mc.common import Check, Violation, require, digest, quiet

check = Check('C02', 'model_checking',
    rule='all scenarios with all combinations of their options; for each '
    'distribution of processes onto nodes, all orders of preference of the '
    'processes, both greedy and round-robin; each with all single deviations '
    'from the default schedule (two processes) or none (three processes); '
    'both with collectives that return as soon and as late as the standard '
    'allows (quick: no deviations for scenarios with long-range terms and predefined models and for options that do not affect the communication, selected sizes of sampled meshes); distinct: scenario and set of schedules; trivial: only one '
    'schedule', timeout=300,
    assumptions=['memory accesses between two MPI calls of a process are not '
    'interleaved with those of other processes', 'simulated collectives agree '
    'with real ones (validated in C01)'])

@check.family
def scenario(ctx, name, options, size, placements, bound):
    want = parallel.reference(name, options)
    folder = [None]
    body = parallel.body(name, options, folder)
    u = simmpi.universe(size)
    schedules = 0

    def compare(results):
        shutil.rmtree(folder[0], ignore_errors=True)
        folder[0] = None

        d = parallel.compare(results, want)

        if d:
            raise Violation('schedule-dependent: ' + d)

    def fresh(e, rank):
        if folder[0] is None:
            folder[0] = env.scratch('run')
        return body(e, rank)

    for nodes in placements:
        for sync in False, True:
            orders = list(itertools.permutations(range(size)))

            if sync and len(orders) > 2:
                orders = [orders[0], orders[-1]]

            try:
                n, complete = simmpi.explore(size, fresh, compare, nodes, sync,
                    orders=orders, preemptive=(False, True),
                    bound=0 if sync else bound, ctx=ctx)
            except (simmpi.MPIError, simmpi.Deadlock, Violation) as e:
                raise Violation('%d processes on nodes %s, %s collectives, '
                    'order %s, preemptive %s, deviations %s: %s: %s' % (size,
                    nodes, 'late' if sync else 'early', u.policy.order,
                    u.policy.preemptive, u.policy.deviations,
                    type(e).__name__, e))

            schedules += n

        if not u.node_splits:
            break # placement of processes is irrelevant

    ctx.traces += schedules # executions of the implementation itself
    ctx.outcome([name, size, str(want)[:2000]], nontrivial=schedules > 1)

@check.cases
def enumerate_cases(tier):
    bounds = [(2, 1), (3, 0)] if tier == 'quick' else [(2, 2), (3, 1), (4, 0)]

    for name, f in scenarios.SCENARIOS.items():
        for options in f.options:
            for size, bound in bounds:
                placements = list(parallel.partitions(size))

                if tier == 'quick':
                    if size > 2:
                        placements = [[0, 0, 0], [0, 0, 1], [0, 1, 1]]

                    if name == 'elph_sample' and (options['n'],
                            options['nk']) not in ((1, (2, 2)), (3, (2,))):
                        continue

                    if options.get('polar') or name == 'models':
                        bound = 0 # many collectives

                    if name == 'md' and not options['unscreen']:
                        bound = 0 # same communication

                    if name == 'elph_sample' and options['squared']:
                        bound = 0

                yield 'scenario', dict(name=name, options=options, size=size,
                    placements=placements, bound=bound)

check.main()
