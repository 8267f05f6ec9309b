"""Simulated MPI with a controlled scheduler.

`Universe(size)` imports one private copy of the real `elphmod` package per
rank, against a stand-in for `mpi4py` whose communicators belong to that rank.
`Universe.run(body, ...)` executes `body(elphmod, rank)` on all ranks, each in
its own thread, exactly one of which runs at any time.  After each MPI call,
the *policy* decides which of the enabled ranks continues; executions are fully
determined by its choices, so every schedule can be enumerated and replayed.

Modelled: point-to-point-free MPI-3 as used by mpi4py codes, i.e., collectives
(buffer and pickle variants), splitting of communicators, nodes with shared
memory windows.  Buffers are copied between ranks, pickled objects are pickled.

Two semantics for collectives, both allowed by the standard:

* eager: a rank leaves a collective as soon as the data it needs is there (the
  root of a broadcast or the non-roots of a gather do not wait), which exposes
  missing synchronization;
* sync: every rank waits for all others, which exposes dependencies on
  buffering (deadlocks).

Detected: mismatched collectives, wrong counts, non-contiguous or read-only
buffers, deadlocks, ranks leaving collectives undone, and (by comparing
results) any dependence on the schedule.
"""

from mc import env, poison

import importlib
import pickle
import sys
import threading
import types

import numpy as np

class MPIError(Exception):
    """Erroneous MPI program."""

class Deadlock(Exception):
    """No rank can continue."""

class Divergence(Exception):
    """Replayed schedule behaves differently."""

class Abort(BaseException):
    """Unwinds ranks of an aborted execution."""

UNDEFINED = -32766
COMM_TYPE_SHARED = 2

class _InPlace:
    def __repr__(self):
        return 'MPI.IN_PLACE'

IN_PLACE = _InPlace()

class Op:
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __call__(self, x, y):
        return self.f(x, y)

    def __repr__(self):
        return 'MPI.' + self.name

SUM = Op('SUM', lambda x, y: x + y)
PROD = Op('PROD', lambda x, y: x * y)
MAX = Op('MAX', lambda x, y: np.maximum(x, y)
    if isinstance(x, np.ndarray) else max(x, y))
MIN = Op('MIN', lambda x, y: np.minimum(x, y)
    if isinstance(x, np.ndarray) else min(x, y))
LAND = Op('LAND', lambda x, y: np.logical_and(x, y)
    if isinstance(x, np.ndarray) else bool(x) and bool(y))
LOR = Op('LOR', lambda x, y: np.logical_or(x, y)
    if isinstance(x, np.ndarray) else bool(x) or bool(y))

def flat(array, write=False):
    """View contiguous buffer as bytes in memory order."""

    array = np.asarray(array) if not isinstance(array, np.ndarray) else array

    if write and not array.flags.writeable:
        raise MPIError('receive buffer is read-only')

    if array.dtype.hasobject:
        raise MPIError('buffer of Python objects')

    if array.flags.c_contiguous:
        view = array
    elif array.flags.f_contiguous:
        view = array.T
    else:
        raise MPIError('buffer is not contiguous')

    return np.ndarray.view(view.reshape(-1), np.ndarray).view(np.uint8) \
        if array.size else np.empty(0, dtype=np.uint8)

def spec(buf):
    """Resolve buffer specification of mpi4py."""

    if buf is None or buf is IN_PLACE:
        return buf, None, None

    if isinstance(buf, (list, tuple)):
        if not isinstance(buf[0], np.ndarray):
            if buf[0] is None or buf[0] is IN_PLACE:
                return buf[0], None, None
            raise MPIError('unsupported buffer specification')

        array = buf[0]
        counts = displs = None
        unit = 1

        for x in buf[1:]:
            if isinstance(x, Datatype):
                if not x.usable:
                    raise MPIError('datatype is not committed')
                unit = x.count

        rest = [x for x in buf[1:] if not isinstance(x, (str, Datatype))]

        if rest:
            counts = rest[0]

            if len(rest) > 1:
                displs = rest[1]

            elif isinstance(counts, (list, tuple)) and len(counts) == 2 \
                    and not np.isscalar(counts[0]):
                counts, displs = counts

        if unit != 1:
            if counts is not None:
                counts = np.multiply(counts, unit)
            if displs is not None:
                displs = np.multiply(displs, unit)

        return array, counts, displs

    if isinstance(buf, (np.ndarray, np.generic)):
        return buf, None, None

    return np.asarray(memoryview(buf)), None, None

class Datatype:
    """Basic or contiguous derived datatype (counted in array elements)."""

    def __init__(self, count=1):
        self.count = count
        self.usable = True

    def Create_contiguous(self, count):
        new = Datatype(self.count * count)
        new.usable = False
        return new

    def Commit(self):
        self.usable = True
        return self

    def Free(self):
        self.usable = False

def blocks(array, counts, displs, size):
    """Return byte ranges of vector collective."""

    item = array.dtype.itemsize

    if counts is None:
        if array.size % size:
            raise MPIError('buffer of %d items not divisible among %d ranks'
                % (array.size, size))

        counts = [array.size // size] * size
    else:
        if np.ndim(counts) == 0:
            counts = [int(counts)] * size

        counts = [int(c) for c in counts]

    if len(counts) != size:
        raise MPIError('%d counts for %d ranks' % (len(counts), size))

    if min(counts) < 0:
        raise MPIError('negative count')

    if displs is None:
        displs = [sum(counts[:i]) for i in range(size)]
    else:
        displs = [int(d) for d in displs]

    for c, d in zip(counts, displs):
        if d + c > array.size:
            raise MPIError('message truncated: counts %s exceed buffer of %d '
                'items' % (counts, array.size))

    return [(d * item, (d + c) * item) for c, d in zip(counts, displs)]

def merge(payloads, op):
    total = payloads[0]

    for x in payloads[1:]:
        total = op(total, x)

    return total

class Slot:
    """One instance of a collective operation."""

    def __init__(self, kind, root):
        self.kind = kind
        self.root = root
        self.arrived = {}
        self.result = None
        self.done = False
        self.left = set()

class Group:
    """What the communicators of all members have in common."""

    def __init__(self, universe, members, label):
        self.universe = universe
        self.members = list(members)
        self.label = label
        self.slots = {}
        self.calls = [0] * len(members)

    def reset(self):
        self.slots = {}
        self.calls = [0] * len(self.members)

class Comm:
    """Communicator as seen by one rank."""

    def __init__(self, group, rank):
        self._group = group
        self._rank = rank

    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self._group.members)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        raise SystemExit(errorcode)

    def __eq__(self, other):
        return isinstance(other, (Comm, LazyComm)) \
            and self._group is other._group

    def __hash__(self):
        return id(self._group)

    # collective machinery:

    def _call(self, kind, payload=None, root=0, wait='all', finish=None):
        """Take part in collective.

        Parameters
        ----------
        kind : str
            All ranks must agree on kind and root.
        payload : object
            Contribution of this rank.
        wait : str
            Which ranks the calling one has to wait for: `all` or `root` or
            `none` (eager semantics only).
        finish : function
            Evaluated once, when everything has arrived.
        """
        group = self._group
        universe = group.universe
        size = len(group.members)

        if not 0 <= root < size:
            raise MPIError('%s: invalid root %s' % (kind, root))

        universe.check_thread(group.members[self._rank])

        n = group.calls[self._rank]
        group.calls[self._rank] += 1

        slot = group.slots.get(n)

        if slot is None:
            slot = group.slots[n] = Slot(kind, root)

        elif (slot.kind, slot.root) != (kind, root):
            raise MPIError('collective mismatch on %s: rank %d calls %s '
                '(root %d) as operation %d while others call %s (root %d)'
                % (group.label, self._rank, kind, root, n, slot.kind,
                    slot.root))

        slot.arrived[self._rank] = payload

        if universe.sync:
            wait = 'all'

        if len(slot.arrived) == size and finish is not None:
            slot.result = finish(slot.arrived)

        universe.calls += 1

        if wait == 'all':
            ready = lambda: len(slot.arrived) == size
        elif wait == 'root':
            ready = lambda: root in slot.arrived
        else:
            ready = None

        universe.point(group.members[self._rank], ready,
            '%s on %s' % (kind, group.label))

        slot.left.add(self._rank)

        if len(slot.left) == size:
            group.slots.pop(n, None)

        return slot

    def Barrier(self):
        self._call('Barrier')

    barrier = Barrier

    def Bcast(self, buf, root=0):
        array, counts, displs = spec(buf)

        if self._rank == root:
            data = flat(array).copy()
            self._call('Bcast', data, root, wait='none')
        else:
            view = flat(array, write=True)
            slot = self._call('Bcast', None, root, wait='root')
            data = slot.arrived[root]

            if data.size != view.size:
                raise MPIError('Bcast: %d bytes sent, %d bytes expected'
                    % (data.size, view.size))

            view[:] = data

    def bcast(self, obj=None, root=0):
        if self._rank == root:
            self._call('bcast', pickle.dumps(obj), root, wait='none')
            return obj

        return pickle.loads(
            self._call('bcast', None, root, wait='root').arrived[root])

    def _gather(self, kind, send, recv, root):
        all_ranks = root is None

        receiving = all_ranks or self._rank == root

        if receiving:
            array, counts, displs = spec(recv)

            if array is None:
                raise MPIError('%s: no receive buffer' % kind)

            view = flat(array, write=True)
            ranges = blocks(array, counts, displs, self.size)

        if send is IN_PLACE:
            if not receiving:
                raise MPIError('%s: IN_PLACE on non-root' % kind)
            data = view[slice(*ranges[self._rank])].copy()
        else:
            data = flat(spec(send)[0]).copy()

        slot = self._call(kind, data, 0 if all_ranks else root,
            wait='all' if receiving else 'none')

        if receiving:
            for rank, (lower, upper) in enumerate(ranges):
                data = slot.arrived[rank]

                if data.size != upper - lower:
                    raise MPIError('%s: rank %d sends %d bytes, %d expected'
                        % (kind, rank, data.size, upper - lower))

                view[lower:upper] = data

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gather('Gatherv', sendbuf, recvbuf, root)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gather('Gather', sendbuf, recvbuf, root)

    def Allgatherv(self, sendbuf, recvbuf):
        self._gather('Allgatherv', sendbuf, recvbuf, None)

    def Allgather(self, sendbuf, recvbuf):
        self._gather('Allgather', sendbuf, recvbuf, None)

    def _scatter(self, kind, send, recv, root):
        if self._rank == root:
            array, counts, displs = spec(send)
            source = flat(array)
            data = [source[slice(*r)].copy()
                for r in blocks(array, counts, displs, self.size)]
        else:
            data = None

        array, counts, displs = spec(recv)
        view = None if array is IN_PLACE else flat(array, write=True)
        slot = self._call(kind, data, root,
            wait='none' if self._rank == root else 'root')
        data = slot.arrived[root][self._rank]

        if view is not None:
            if data.size != view.size:
                raise MPIError('%s: rank %d receives %d bytes, expects %d'
                    % (kind, self._rank, data.size, view.size))

            view[:] = data

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatter('Scatterv', sendbuf, recvbuf, root)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatter('Scatter', sendbuf, recvbuf, root)

    def gather(self, sendobj, root=0):
        slot = self._call('gather', pickle.dumps(sendobj), root,
            wait='all' if self._rank == root else 'none')

        if self._rank == root:
            return [pickle.loads(slot.arrived[r]) for r in range(self.size)]

    def allgather(self, sendobj):
        slot = self._call('allgather', pickle.dumps(sendobj))

        return [pickle.loads(slot.arrived[r]) for r in range(self.size)]

    def scatter(self, sendobj=None, root=0):
        if self._rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise MPIError('scatter: wrong number of objects')
            data = [pickle.dumps(x) for x in sendobj]
        else:
            data = None

        slot = self._call('scatter', data, root,
            wait='none' if self._rank == root else 'root')

        return pickle.loads(slot.arrived[root][self._rank])

    def _reduce(self, kind, send, recv, op, root):
        all_ranks = root is None
        receiving = all_ranks or self._rank == root

        if send is IN_PLACE:
            if not receiving:
                raise MPIError('%s: IN_PLACE on non-root' % kind)
            source = spec(recv)[0]
        else:
            source = spec(send)[0]

        flat(source)
        data = np.array(source.T if source.flags.f_contiguous
            and not source.flags.c_contiguous else source).reshape(-1)

        if receiving:
            target = spec(recv)[0]
            if target is None:
                raise MPIError('%s: no receive buffer' % kind)
            view = flat(target, write=True)

        slot = self._call('%s(%r)' % (kind, op), data,
            0 if all_ranks else root, wait='all' if receiving else 'none')

        if receiving:
            parts = [slot.arrived[r] for r in range(self.size)]

            for part in parts:
                if part.size != target.size:
                    raise MPIError('%s: %d items sent, %d expected'
                        % (kind, part.size, target.size))
                if part.dtype != target.dtype:
                    raise MPIError('%s: %s sent, %s expected'
                        % (kind, part.dtype, target.dtype))

            view[:] = np.ascontiguousarray(merge(parts, op).astype(
                target.dtype)).view(np.uint8).reshape(-1) \
                if target.size else 0

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._reduce('Reduce', sendbuf, recvbuf, op, root)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._reduce('Allreduce', sendbuf, recvbuf, op, None)

    def reduce(self, sendobj, op=SUM, root=0):
        slot = self._call('reduce(%r)' % op, pickle.dumps(sendobj), root,
            wait='all' if self._rank == root else 'none')

        if self._rank == root:
            return merge([pickle.loads(slot.arrived[r])
                for r in range(self.size)], op)

    def allreduce(self, sendobj, op=SUM):
        slot = self._call('allreduce(%r)' % op, pickle.dumps(sendobj))

        return merge([pickle.loads(slot.arrived[r])
            for r in range(self.size)], op)

    # communicators:

    def Split(self, color=0, key=0):
        return self._split('Split', color, key)

    def Split_type(self, split_type, key=0, info=None):
        universe = self._group.universe

        if split_type == UNDEFINED:
            color = UNDEFINED
        else:
            universe.node_splits += 1 # placement of processes matters
            color = universe.nodes[self._group.members[self._rank]]

        return self._split('Split_type', color, key)

    def Dup(self, info=None):
        return self._split('Dup', 0, self._rank)

    def _split(self, kind, color, key):
        if self._group.universe.importing is not None:
            return LazyComm(self, color, key)

        slot = self._call(kind, (int(color), 0 if key is None else int(key)),
            finish=self._finish_split)

        return slot.result[self._rank]

    def _finish_split(self, arrived):
        universe = self._group.universe
        colors = {}

        for rank in range(self.size):
            color, key = arrived[rank]
            colors.setdefault(color, []).append((key, rank))

        comms = {}

        for color, members in colors.items():
            members = [rank for key, rank in sorted(members)]

            group = universe.group([self._group.members[r] for r in members],
                '%s/%s' % (self._group.label, members))

            for i, rank in enumerate(members):
                comms[rank] = None if color == UNDEFINED else Comm(group, i)

        return comms

COMMANDS = ('rank', 'size')

class LazyComm:
    """Communicator split while importing, when ranks are not concurrent."""

    def __init__(self, parent, color, key):
        universe = parent._group.universe
        rank = parent._group.members[parent._rank]

        assert parent._group is universe.world_group

        self.__dict__['_lazy'] = (parent, len(universe.lazy[rank]))
        universe.lazy[rank].append((int(color), 0 if key is None
            else int(key)))
        self.__dict__['_comm'] = None

    def _resolve(self):
        if self._comm is None:
            parent, n = self._lazy
            universe = parent._group.universe

            if universe.importing is not None:
                raise MPIError('communicator used while importing')

            self.__dict__['_comm'] = universe.lazy_comms(n)[parent._rank]

        return self._comm

    def __getattr__(self, name):
        return getattr(self._resolve(), name)

    def __eq__(self, other):
        return self._resolve() == other

    def __hash__(self):
        return hash(self._resolve())

class Win:
    def __init__(self, memory, itemsize):
        self.memory = memory
        self.itemsize = itemsize

    @classmethod
    def Allocate_shared(cls, size, disp_unit=1, info=None, comm=None):
        universe = comm._group.universe

        if len({universe.nodes[m] for m in comm._group.members}) > 1:
            raise MPIError('shared memory across nodes')

        def finish(arrived):
            memory = [bytearray(b'\x7f' * int(arrived[r]))
                for r in range(comm.size)]
            universe.windows.append(memory)
            return memory

        slot = comm._call('Allocate_shared', int(size), finish=finish)

        return cls(slot.result, disp_unit)

    def Shared_query(self, rank):
        return self.memory[rank], self.itemsize

    def Fence(self, assertion=0):
        raise MPIError('unsupported: Win.Fence')

    def Free(self):
        pass

class Policy:
    """Decide which enabled rank continues.

    Parameters
    ----------
    order : sequence of int
        Order of preference of the ranks.
    preemptive : bool
        Always continue with the most preferred enabled rank? Otherwise, the
        running rank continues until it has to wait.
    deviations : dict
        Choices (index into list of alternatives) at given decision points.
    """
    def __init__(self, order, preemptive=False, deviations=None):
        self.order = list(order)
        self.preemptive = preemptive
        self.deviations = dict(deviations or {})
        self.trace = []

    def __call__(self, enabled, current):
        ranked = sorted(enabled, key=self.order.index)

        if not self.preemptive and current in ranked:
            ranked.remove(current)
            ranked.insert(0, current)

        if len(ranked) == 1:
            return ranked[0]

        choice = self.deviations.get(len(self.trace), 0)

        if choice >= len(ranked):
            raise Divergence('choice %d of %d at decision %d'
                % (choice, len(ranked), len(self.trace)))

        self.trace.append((tuple(ranked), choice))

        return ranked[choice]

class Rank:
    def __init__(self):
        self.lock = threading.Semaphore(0)
        self.ready = None
        self.done = False
        self.where = 'start'
        self.result = None
        self.error = None
        self.steps = 0
        self.random = None

class Universe:
    """All simulated ranks and their copies of the code."""

    def __init__(self, size, extra_modules=()):
        self.size = size
        self.nodes = [0] * size
        self.sync = False
        self.lazy = [[] for rank in range(size)]
        self._lazy_comms = {}
        self.importing = None
        self.groups = []
        self.windows = []
        self.running = None
        self.ranks = []
        self.calls = 0
        self.node_splits = 0
        self.world_group = self.group(range(size), 'world')
        self.persistent = 1
        self.modules = []
        self.packages = []

        saved = self._take()

        for rank in range(size):
            self.importing = rank
            sys.modules['mpi4py'] = self._mpi4py(rank)
            sys.modules['mpi4py.MPI'] = sys.modules['mpi4py'].MPI

            package = importlib.import_module('elphmod')

            for name in ('MPI', 'bravais', 'diagrams', 'dispersion', 'dos',
                    'el', 'elel', 'eliashberg', 'elph', 'md', 'misc',
                    'occupations', 'ph', 'plot', 'models.chain',
                    'models.graphene', 'models.tas2') + tuple(extra_modules):
                importlib.import_module('elphmod.' + name)

            self.packages.append(package)
            self.modules.append(self._take())

        self.importing = None

        if len(set(map(len, self.lazy))) > 1:
            raise MPIError('collective mismatch while importing')

        for n in range(len(self.lazy[0])):
            self.lazy_comms(n)

        self.persistent = len(self.groups)
        sys.modules.update(saved)

    @staticmethod
    def _take():
        taken = {name: sys.modules[name] for name in sys.modules
            if name in ('elphmod', 'mpi4py', 'mpi4py.MPI')
            or name.startswith('elphmod.')}

        for name in taken:
            del sys.modules[name]

        return taken

    def _mpi4py(self, rank):
        package = types.ModuleType('mpi4py')
        package.__path__ = []

        MPI = types.ModuleType('mpi4py.MPI')
        MPI.COMM_WORLD = Comm(self.world_group, rank)
        MPI.COMM_TYPE_SHARED = COMM_TYPE_SHARED
        MPI.UNDEFINED = UNDEFINED
        MPI.IN_PLACE = IN_PLACE
        MPI.Win = Win
        MPI.Comm = MPI.Intracomm = Comm
        MPI.Op = Op

        for op in SUM, PROD, MAX, MIN, LAND, LOR:
            setattr(MPI, op.name, op)

        for name in ('DOUBLE', 'INT', 'LONG', 'COMPLEX', 'DOUBLE_COMPLEX',
                'BYTE', 'CHAR', 'BOOL', 'FLOAT', 'UNSIGNED_CHAR'):
            setattr(MPI, name, Datatype())

        package.MPI = MPI

        return package

    def group(self, members, label):
        group = Group(self, members, label)
        self.groups.append(group)
        return group

    def lazy_comms(self, n):
        if n not in self._lazy_comms:
            self._lazy_comms[n] = Comm(self.world_group, 0)._finish_split(
                {rank: self.lazy[rank][n] for rank in range(self.size)})

        return self._lazy_comms[n]

    # execution:

    def check_thread(self, rank):
        if self.aborting:
            raise Abort

        if self.running != rank:
            raise MPIError('rank %d uses communicator of rank %d'
                % (self.running, rank))

    def point(self, rank, ready, where):
        """Scheduling point."""

        me = self.ranks[rank]
        me.ready = ready
        me.where = where
        me.steps += 1

        self.dispatch(rank)

        me.lock.acquire()

        if self.aborting:
            raise Abort

        me.ready = None

    def dispatch(self, current):
        """Choose rank to continue and pass the baton."""

        enabled = [i for i, r in enumerate(self.ranks)
            if not r.done and (r.ready is None or r.ready())]

        self.states.add(tuple(r.steps for r in self.ranks)
            + tuple(enabled))

        if not enabled:
            if all(r.done for r in self.ranks):
                self.finished.release()
            else:
                self.abort(Deadlock('deadlock: ' + ', '.join('rank %d %s'
                    % (i, (r.error or 'finished') if r.done
                        else 'waits in ' + r.where)
                    for i, r in enumerate(self.ranks)) + ''.join('\n'
                    + getattr(r, 'traceback', '') for r in self.ranks)))
            return

        try:
            chosen = self.policy(enabled, current)
        except Divergence as e:
            self.abort(e)
            return

        self.transitions += 1

        if self.running != chosen:
            self.switch(chosen)

        self.ranks[chosen].lock.release()

    def switch(self, chosen):
        """Exchange what is global to a process."""

        if self.running is not None:
            self.ranks[self.running].random = np.random.get_state()

        self.running = chosen

        sys.modules.update(self.modules[chosen])

        if self.ranks[chosen].random is not None:
            np.random.set_state(self.ranks[chosen].random)

    def abort(self, error):
        if not self.aborting:
            self.aborting = True
            self.error = error

            for r in self.ranks:
                r.lock.release()

            self.finished.release()

    def _thread(self, body, rank):
        me = self.ranks[rank]
        me.lock.acquire()

        try:
            if self.aborting:
                return

            if self.poison:
                poison.on()

            me.result = body(self.packages[rank], rank)

        except Abort:
            return
        except (MPIError, Deadlock, Divergence) as e:
            self.abort(e)
            return
        except SystemExit:
            me.error = 'exit'
        except BaseException as e:
            import traceback
            me.error = '%s: %s' % (type(e).__name__, e)
            me.traceback = traceback.format_exc(limit=-6)

        if self.aborting:
            return

        me.done = True
        self.dispatch(rank)

    def run(self, body, policy, nodes=None, sync=False, poison=True):
        """Execute one schedule.

        Returns
        -------
        list
            Result of each rank.
        """
        self.nodes = list(nodes or [0] * self.size)
        self.sync = sync
        self.policy = policy
        self.poison = poison
        self.windows = []
        del self.groups[self.persistent:]

        for group in self.groups:
            group.reset()

        self.ranks = [Rank() for rank in range(self.size)]
        self.running = None
        self.aborting = False
        self.error = None
        self.finished = threading.Semaphore(0)
        self.calls = 0
        self.transitions = 0
        self.node_splits = 0
        self.states = set()

        random = np.random.get_state()

        for rank, r in enumerate(self.ranks):
            # processes have different random numbers
            np.random.seed(1000 + rank)
            r.random = np.random.get_state()

        saved = self._take()

        threads = [threading.Thread(target=self._thread, args=(body, rank),
            daemon=True) for rank in range(self.size)]

        for thread in threads:
            thread.start()

        try:
            self.dispatch(None)
            self.finished.acquire()
        except BaseException:
            self.aborting = True
            for r in self.ranks:
                r.lock.release()
            raise
        finally:
            self._take()
            sys.modules.update(saved)
            np.random.set_state(random)

        for thread in threads:
            thread.join(10)

        if self.error is not None:
            raise self.error

        errors = [r.error for r in self.ranks]

        if any(errors):
            if len(set(errors)) == 1 and errors[0] == 'exit':
                return ['exit'] * self.size

            raise MPIError('errors on ranks: %s\n%s' % (errors, '\n'.join(
                getattr(r, 'traceback', '') for r in self.ranks)))

        for group in self.groups:
            if len(set(group.calls)) > 1:
                raise MPIError('collective mismatch on %s: ranks made %s calls'
                    % (group.label, group.calls))

        return [r.result for r in self.ranks]

_universes = {}

def universe(size):
    """Return universe of given size (cached per OS process)."""

    if size not in _universes:
        _universes[size] = Universe(size)

    return _universes[size]

def explore(size, body, check, nodes=None, sync=False, orders=None,
        preemptive=(False,), bound=0, limit=None, ctx=None):
    """Enumerate all schedules within bounds.

    For every order of preference and mode, all schedules with at most `bound`
    deviations from the corresponding default schedule are executed.
    `check(results)` is called for each of them.
    """
    u = universe(size)
    count = 0

    for order in orders:
        for mode in preemptive:
            stack = [({}, 0)]

            while stack:
                deviations, first = stack.pop()

                policy = Policy(order, mode, deviations)

                results = u.run(body, policy, nodes, sync)
                count += 1

                if ctx is not None:
                    ctx.states += len(u.states)
                    ctx.transitions += u.transitions
                    ctx.add('schedules')

                check(results)

                for i, (ranked, choice) in enumerate(policy.trace):
                    if i in deviations and choice != deviations[i]:
                        raise Divergence('replay diverged')

                if len(deviations) < bound:
                    for i in range(first, len(policy.trace)):
                        for alt in range(1, len(policy.trace[i][0])):
                            stack.append(({**deviations, i: alt}, i + 1))

                if limit is not None and count >= limit:
                    return count, False

    return count, True
