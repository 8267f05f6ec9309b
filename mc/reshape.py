"""Reference semantics of operations that rearrange lattice models.

A reference state consists of k-dependent functions and is transformed
alongside the real model.  Histories of operations are enumerated exhaustively
up to a given depth; states reached on different ways are recognized by a hash
of the real data.
"""

import copy

import numpy as np

from mc import gen, ref
from mc.common import close, digest, equal, require

KS = np.array([[0.31, 0.77, -0.43], [-1.13, 0.52, 2.21], [0.0, 0.0, 0.0]])
QS = np.array([[0.61, -0.27, 0.19], [1.9, 1.3, -0.7], [0.0, 0.0, 0.0]])

def snapshot(model):
    """Independent k-space representation of real-space data."""
    R = np.array(model.R)
    data = np.array(model.data)
    return lambda k: ref.fourier(R, data, k)

def explore(ctx, build, ops, depth, apply, inspect, first=None):
    """Enumerate operation histories breadth first.

    build() -> (model, reference)
    apply(op, model, reference) -> (model, reference) or None if not enabled
    inspect(model, reference, history)
    """
    seen = set()
    frontier = [()]

    for n in range(depth + 1):
        new = []

        for history in frontier:
            model, state = build()

            for op in history:
                model, state = apply(op, model, state)

            inspect(model, state, history)

            key = state.key(model)
            ctx.states += key not in seen
            if key in seen:
                continue
            seen.add(key)
            ctx.outcome(key, nontrivial=len(history) > 0)

            if n == depth:
                continue

            for op in ops:
                if first is not None and not history and op != first:
                    continue
                # enabledness is decided on fresh objects as well
                m, s = build()
                for done in history:
                    m, s = apply(done, m, s)
                if not s.enabled(op):
                    continue
                ctx.transitions += 1
                new.append(history + (op,))

        frontier = new

    return seen

class El:
    """Reference of tight-binding model."""

    def __init__(self, model):
        self.H = snapshot(model)
        self.size = model.size
        self.parents = []
        self.cells = [(0, 0, 0)]
        self.rydberg = model.rydberg
        self.divide_ndegen = model.divide_ndegen
        self.sorted = False
        self.N = None

    def key(self, model):
        return digest([ref.summed(model.R, model.data, 1e-10),
            [tuple(map(int, c)) for c in model.cells], model.size,
            len(self.parents), len(model.R)], 8)

    def enabled(self, op):
        name = op[0]
        if name == 'supercell':
            return self.size * abs(ref.det3(ref.matrixN(op[1:]))) <= 24
        if name == 'unit_cell':
            return bool(self.parents) and self.parents[-1][1] is True
        return True

    def copy(self):
        return copy.copy(self)

def invalidate(state):
    """Translational symmetry within supercell is not respected anymore."""
    if state.parents:
        state.parents = state.parents[:-1] + [(state.parents[-1][0], False)]

def expand(order, size):
    return list(order(size))

ORDERS = dict(
    rev=lambda n: list(range(n))[::-1],
    rot=lambda n: list(range(1, n)) + [0],
    )

SLICES = dict(
    first=lambda n: slice(0, 1),
    last=lambda n: slice(n - 1, n),
    some=lambda n: slice(0, n, 2),
    all=lambda n: slice(None),
    )

def phases(size, s, S, k):
    """Diagonal of basis transformation when shifting part of the basis."""
    p = np.ones(size, dtype=complex)
    p[s] = np.exp(-1j * np.dot(S, k))
    return p

def apply_el(op, model, state):
    name, args = op[0], op[1:]
    state = state.copy()
    H = state.H

    if name == 'order':
        o = ORDERS[args[0]](state.size)
        model.order_orbitals(*o)
        state.H = lambda k: H(k)[np.ix_(o, o)]
        invalidate(state)
        state.sorted = state.sorted

    elif name == 'shift':
        s = SLICES[args[0]](state.size)
        S = args[1]
        n = state.size
        model.shift_orbitals(s, S)

        def shifted(k):
            p = phases(n, s, S, k)
            return p.conj()[:, None] * H(k) * p[None, :]

        state.H = shifted
        state.sorted = True
        if args[0] != 'all':
            invalidate(state)

    elif name == 'standardize':
        model.standardize(*args)
        state.sorted = True

    elif name == 'symmetrize':
        model.symmetrize()
        state.H = lambda k: (H(k) + H(k).T.conj()) / 2
        state.sorted = True
        if state.parents:
            P, *rest = state.parents[-1][0]
            state.parents = state.parents[:-1] + [((lambda k: (P(k)
                + P(k).T.conj()) / 2, *rest), state.parents[-1][1])]

    elif name == 'supercell':
        M = ref.matrixN(args)
        orig = ref.summed(model.R, model.data)
        new = model.supercell(*args)
        require(new is not model, 'supercell must be a new object')
        same(ref.summed(model.R, model.data), orig, 'original model')
        cells = [tuple(map(int, c)) for c in new.cells]
        equal(len(cells), abs(ref.det3(M)), 'number of cells')
        parent = (H, state.size, state.cells, state.N, state.sorted)
        state.H = lambda k: ref.fold(H, M, cells, k)
        state.size *= len(cells)
        state.parents = state.parents + [(parent, True)]
        state.cells = cells
        state.N = M
        state.sorted = False
        model = new

    elif name == 'unit_cell':
        new = model.unit_cell()
        state.H, state.size, state.cells, state.N, _ = state.parents[-1][0]
        state.parents = state.parents[:-1]
        # attributes of a supercell of a supercell are not restored
        invalidate(state)
        state.cells = [(0, 0, 0)]
        state.N = None
        state.sorted = False
        model = new

    return model, state

def same(a, b, what):
    equal(sorted(a), sorted(b), 'lattice vectors of ' + what)
    for r in a:
        close(a[r], b[r], '%s at %s' % (what, r), tol=0, rel=1e-12)

def inspect_common(R, data, size, dtype_complex):
    R = np.asarray(R)
    data = np.asarray(data)
    require(R.ndim == 2 and R.shape[1] == 3, 'shape %s of R', R.shape)
    require(R.dtype.kind == 'i', 'type %s of R', R.dtype)
    equal(data.shape, (len(R), size, size), 'shape of data')

def is_standard(R, what='lattice vectors'):
    R = [tuple(map(int, r)) for r in R]
    equal(R, sorted(set(R)), 'sorted and unique ' + what)

def inspect_el(model, state, history):
    what = ' after %s' % (history,)
    equal(model.size, state.size, 'size' + what)
    inspect_common(model.R, model.data, state.size, True)
    equal([tuple(map(int, c)) for c in model.cells], state.cells,
        'cells' + what)
    if state.N is not None:
        equal([[int(x) for x in n] for n in model.N], state.N, 'N' + what)
    equal(bool(model.rydberg), bool(state.rydberg), 'unit of energy' + what)
    equal(bool(model.divide_ndegen), bool(state.divide_ndegen),
        'division by degeneracy' + what)

    if state.sorted:
        is_standard(model.R)

    for k in KS:
        want = state.H(k)
        close(model.H(*k), want, 'Hamiltonian' + what, tol=1e-10)
        h = 1e-3
        for x in range(3):
            d = np.eye(3)[x] * h
            fd = (8 * (state.H(k + d) - state.H(k - d))
                - state.H(k + 2 * d) + state.H(k - 2 * d)) / (12 * h)
            close(model.v(*k)[x], fd, 'band velocity' + what, tol=1e-6)

    close(model.H(), state.H(np.zeros(3)), 'Hamiltonian by default' + what)
    close(model.H(k1=0.4), state.H(np.array([0.4, 0, 0])), 'keyword' + what)

    R = [tuple(map(int, r)) for r in model.R]
    for r in set(R[:3] + R[-2:]):
        if R.count(r) == 1:
            close(model.t(*r), model.data[R.index(r)], 'hopping' + what)
    close(model.t(91, 0, 0), np.zeros((state.size, state.size)),
        'missing hopping' + what)

class Ph:
    """Reference of mass-spring model."""

    def __init__(self, model):
        R = np.array(model.R)
        data = np.array(model.data)
        if model.lr:
            fixed = copy.deepcopy(model)
            self.D = lambda q: (ref.fourier(R, data, q) + fixed.D_lr(*q))
        else:
            self.D = lambda q: ref.fourier(R, data, q)
        self.nat = model.nat
        self.r = np.array(model.r, dtype=float)
        self.a = np.array(model.a)
        self.M = np.array(model.M)
        self.names = list(model.atom_order)
        self.Z = None if model.Z is None else np.array(model.Z)
        self.Q = None if model.Q is None else np.array(model.Q)
        self.parents = []
        self.cells = [(0, 0, 0)]
        self.N = None
        self.sorted = False
        self.lr = model.lr
        self.divide_mass = model.divide_mass
        self.divide_ndegen = model.divide_ndegen

    def key(self, model):
        return digest([ref.summed(model.R, model.data, 1e-14), model.r,
            model.M, len(model.R), len(self.parents),
            [tuple(map(int, c)) for c in model.cells]], 10)

    def enabled(self, op):
        name = op[0]
        if name == 'supercell':
            return self.nat * abs(ref.det3(ref.matrixN(op[1:]))) <= 8
        if name == 'unit_cell':
            return bool(self.parents) and self.parents[-1][1] is True
        if name == 'symmetrize':
            return not self.lr
        return True

    def copy(self):
        return copy.copy(self)

def apply_ph(op, model, state):
    name, args = op[0], op[1:]
    state = state.copy()
    D = state.D

    if name == 'order':
        o = ORDERS[args[0]](state.nat)
        x = [3 * i + j for i in o for j in range(3)]
        model.order_atoms(*o)
        state.D = lambda q: D(q)[np.ix_(x, x)]
        state.r = state.r[o]
        state.M = state.M[o]
        state.names = [state.names[i] for i in o]
        if state.Z is not None:
            state.Z = state.Z[o]
        if state.Q is not None:
            state.Q = state.Q[o]
        invalidate(state)

    elif name == 'shift':
        s = SLICES[args[0]](state.nat)
        S = args[1]
        n = state.nat
        # the caller's (shared) positions must not change
        shared = model.r
        before = np.array(shared)
        model.shift_atoms(s, S)
        if shared is not model.r:
            close(shared, before, 'array of positions shared with others')

        def shifted(q):
            p = np.repeat(phases(n, s, S, q), 3)
            return p.conj()[:, None] * D(q) * p[None, :]

        state.D = shifted
        state.r = state.r.copy()
        state.r[s] = state.r[s] + np.dot(S, state.a)
        state.sorted = True
        if args[0] != 'all':
            invalidate(state)

    elif name == 'standardize':
        model.standardize(*args)
        state.sorted = True

    elif name == 'symmetrize':
        model.symmetrize()
        state.D = lambda q: (D(q) + D(q).T.conj()) / 2
        state.sorted = True
        if state.parents:
            parent = dict(state.parents[-1][0])
            P = parent['D']
            parent['D'] = lambda q: (P(q) + P(q).T.conj()) / 2
            state.parents = state.parents[:-1] + [(parent,
                state.parents[-1][1])]

    elif name == 'supercell':
        M = ref.matrixN(args)
        orig = ref.summed(model.R, model.data)
        new = model.supercell(*args)
        require(new is not model, 'supercell must be a new object')
        same(ref.summed(model.R, model.data), orig, 'original model')
        cells = [tuple(map(int, c)) for c in new.cells]
        equal(len(cells), abs(ref.det3(M)), 'number of cells')
        parent = {k: getattr(state, k) for k in ('D', 'nat', 'r', 'a', 'M',
            'names', 'Z', 'Q')}
        state.parents = state.parents + [(parent, True)]
        state.D = lambda q: ref.fold(D, M, cells, q)
        n = len(cells)
        state.nat *= n
        state.r = np.array([np.dot(c, state.a) + r for c in cells
            for r in state.r])
        state.a = np.dot(M, state.a)
        state.M = np.concatenate([state.M] * n)
        state.names = state.names * n
        if state.Z is not None:
            state.Z = np.concatenate([state.Z] * n)
        if state.Q is not None:
            state.Q = np.concatenate([state.Q] * n)
        state.cells = cells
        state.N = M
        state.sorted = False
        model = new

    elif name == 'unit_cell':
        new = model.unit_cell()
        shift = state.r[:len(state.parents[-1][0]['r'])] \
            - state.parents[-1][0]['r']
        for k, v in state.parents[-1][0].items():
            setattr(state, k, v)
        # first cell is not necessarily at the origin; all may be shifted
        state.r = state.r + shift
        state.parents = state.parents[:-1]
        invalidate(state)
        state.cells = [(0, 0, 0)]
        state.N = None
        state.sorted = False
        model = new

    return model, state

def inspect_ph(model, state, history):
    what = ' after %s' % (history,)
    size = 3 * state.nat
    equal((model.size, model.nat), (size, state.nat), 'size' + what)
    inspect_common(model.R, model.data, size, False)
    require(np.isrealobj(model.data), 'force constants must be real' + what)
    equal([tuple(map(int, c)) for c in model.cells], state.cells,
        'cells' + what)
    if state.N is not None:
        equal([[int(x) for x in n] for n in model.N], state.N, 'N' + what)
    close(model.a, state.a, 'lattice vectors' + what)
    close(model.r, state.r, 'positions' + what)
    close(model.M, state.M, 'masses' + what)
    equal(list(model.atom_order), state.names, 'atoms' + what)
    equal(bool(model.divide_mass), bool(state.divide_mass),
        'division by mass' + what)
    equal(bool(model.divide_ndegen), bool(state.divide_ndegen),
        'division by degeneracy' + what)
    if state.Z is not None:
        close(model.Z, state.Z, 'Born charges' + what)
    if state.Q is not None:
        close(model.Q, state.Q, 'quadrupoles' + what)

    if state.sorted:
        is_standard(model.R)

    # lattice sum of long-range terms is truncated
    tol = 1e-6 if state.lr else 1e-9
    scale = abs(state.D(KS[0])).max()
    for q in KS:
        close(model.D(*q) / scale, state.D(q) / scale,
            'dynamical matrix' + what, tol=tol)
    close(model.D() / scale, state.D(np.zeros(3)) / scale,
        'dynamical matrix by default' + what, tol=tol)

    R = [tuple(map(int, r)) for r in model.R]
    for r in set(R[:3] + R[-2:]):
        if R.count(r) == 1:
            close(model.C(*r), model.data[R.index(r)], 'springs' + what)
    close(model.C(91, 0, 0), np.zeros((size, size)), 'missing' + what)

    # bond lengths and norms of force constants:
    want = []
    for r, C in zip(R, np.array(model.data)):
        for i in range(state.nat):
            for j in range(state.nat):
                norm = np.sqrt((C[3 * i:3 * i + 3, 3 * j:3 * j + 3] ** 2).sum())
                if norm > 0:
                    want.append((np.linalg.norm(np.dot(r, state.a)
                        + state.r[j] - state.r[i]), norm))
    scale = max([norm for _, norm in want], default=1.0)
    pairs = lambda lC: np.array(sorted((round(float(l), 5),
        round(float(C) / scale, 8)) for l, C in lC)).reshape((-1, 2))
    close(pairs(zip(*model.decay())), pairs(want),
        'decay of force constants' + what, tol=2e-5)

class ElPh:
    """Reference of localized model for electron-phonon coupling."""

    def __init__(self, model):
        Rg, Rk = np.array(model.Rg), np.array(model.Rk)
        data = np.array(model.data)

        def g(q, k):
            fq = np.exp(1j * (Rg @ np.asarray(q, dtype=float)))
            fk = np.exp(1j * (Rk @ np.asarray(k, dtype=float)))
            return np.einsum('RxSab,R,S->xab', data, fq, fk)

        self.g = g # short-range part
        self.el = El(model.el)
        self.ph = Ph(model.ph)
        self.sorted = False
        self.cells = [(0, 0, 0)]
        self.lr = None

        if model.ph.lr:
            fixed = copy.copy(model)
            fixed.ph = copy.deepcopy(model.ph)
            unity = np.eye(model.el.size)
            self.lr = lambda q, k: fixed.g_lr(*q)[:, None, None] * unity

    def key(self, model):
        return digest([np.array(model.Rg), np.array(model.Rk),
            np.array(model.data) * 1e4, model.el.size], 8)

    def enabled(self, op):
        if op[0] == 'supercell':
            n = abs(ref.det3(ref.matrixN(op[1:4])))
            return self.el.size * n <= 12 and self.ph.nat * n <= 6
        return True

    def copy(self):
        new = copy.copy(self)
        new.el = copy.copy(self.el)
        new.ph = copy.copy(self.ph)
        return new

def apply_elph(op, model, state):
    name, args = op[0], op[1:]
    state = state.copy()
    g = state.g

    if name == 'standardize':
        model.standardize(*args)
        state.sorted = True

    elif name == 'symmetrize':
        model.symmetrize()
        state.g = lambda q, k: (g(q, k) + g(-np.array(q), np.array(k)
            + np.array(q)).swapaxes(1, 2).conj()) / 2
        state.sorted = True

    elif name == 'evaluate':
        model.g(*args)

    elif name == 'asr':
        model.asr(report=False)
        fresh = ElPh(model)
        m = np.sqrt(model.ph.M) if model.divide_mass \
            else np.ones(model.ph.nat)
        for k in KS:
            G = fresh.g(np.zeros(3), k)
            G = G.reshape((model.ph.nat, 3, *G.shape[1:]))
            total = np.einsum('nxab,n->xab', G, m)
            close(total / max(m), 0 * total, 'acoustic sum', tol=1e-12)
        state.g = fresh.g

    elif name == 'supercell':
        shared = bool(args[3]) if len(args) > 3 else False
        args = args[:3]
        M = ref.matrixN(args)
        orig = np.array(model.data)
        new = model.supercell(*args, shared_memory=shared)
        close(model.data, orig, 'original model', tol=0, rel=0)
        state.sorted = False
        _, state.el = apply_el(('supercell',) + args, model.el, state.el)
        _, state.ph = apply_ph(('supercell',) + args, model.ph, state.ph)
        cells = [tuple(map(int, c)) for c in new.cells]
        equal(cells, state.el.cells, 'cells')
        state.cells = cells
        state.g = lambda q, k: ref.fold_g(g, M, cells, q, k)
        if state.lr is not None:
            # long-range part of folded couplings of original cell
            lr = state.lr
            state.lr = lambda q, k: ref.fold_g(lr, M, cells, q, k)
        model = new

    else:
        raise ValueError(op)

    return model, state

def inspect_elph(model, state, history):
    what = ' after %s' % (history,)

    inspect_el(model.el, state.el, history)
    inspect_ph(model.ph, state.ph, history)

    Rg, Rk = np.asarray(model.Rg), np.asarray(model.Rk)
    for R in Rg, Rk:
        require(R.ndim == 2 and R.shape[1] == 3 and R.dtype.kind == 'i',
            'lattice vectors %s %s' + what, R.shape, R.dtype)

    nel, nph = state.el.size, 3 * state.ph.nat
    equal(model.data.shape, (len(Rg), nph, len(Rk), nel, nel),
        'shape of coupling' + what)
    equal([tuple(map(int, c)) for c in model.cells], state.cells,
        'cells' + what)

    if state.sorted:
        is_standard(Rg)
        is_standard(Rk)

    scale = max(abs(state.g(QS[0], KS[0])).max(), 1e-12)

    # lattice sum of long-range terms is truncated
    tol = 1e-6 if state.lr else 1e-9

    def total(q, k):
        return state.g(q, k) + (0.0 if state.lr is None else state.lr(q, k))

    for q in QS:
        for k in KS:
            close(model.g(*q, *k) / scale, total(q, k) / scale,
                'coupling' + what, tol=tol)

    # same q point again and defaults:
    k = np.array([0.0, 0.4, 0.0])
    close(model.g(*q, k2=0.4) / scale, total(q, k) / scale,
        'coupling for previous q point' + what, tol=tol)

    g = {}
    for i, r in enumerate(Rg):
        for j, s in enumerate(Rk):
            g.setdefault(tuple(map(int, (*r, *s))), []).append((i, j))
    picked = list(g)[:2] + list(g)[-2:]
    for key in picked:
        if len(g[key]) == 1:
            (i, j), = g[key]
            close(model.gR(*key), model.data[i, :, j],
                'real-space coupling' + what)
    close(model.gR(91, 0, 0, 0, 0, 0), np.zeros((nph, nel, nel)),
        'missing coupling' + what)
    close(model.gR(0, 0, 0, 0, 92, 0), np.zeros((nph, nel, nel)),
        'missing coupling' + what)

class ElEl:
    """Reference of electron-electron interaction."""

    def __init__(self, model):
        self.W = snapshot(model)
        self.size = model.size
        self.cells = [(0, 0, 0)]
        self.N = None
        self.sorted = False

    def key(self, model):
        return digest([ref.summed(model.R, model.data, 1e-10), model.size,
            len(model.R), [tuple(map(int, c)) for c in model.cells]], 8)

    def enabled(self, op):
        return op[0] != 'supercell' or self.size * abs(
            ref.det3(ref.matrixN(op[1:]))) <= 24

def apply_elel(op, model, state):
    name, args = op[0], op[1:]
    state = copy.copy(state)
    W = state.W

    if name == 'standardize':
        model.standardize(*args)
        state.sorted = True

    elif name == 'supercell':
        M = ref.matrixN(args)
        new = model.supercell(*args)
        cells = [tuple(map(int, c)) for c in new.cells]
        equal(len(cells), abs(ref.det3(M)), 'number of cells')
        state.W = lambda q: ref.fold(W, M, cells, q)
        state.size *= len(cells)
        state.cells = cells
        state.N = M
        state.sorted = False
        model = new

    return model, state

def inspect_elel(model, state, history):
    what = ' after %s' % (history,)
    equal(model.size, state.size, 'size' + what)
    inspect_common(model.R, model.data, state.size, True)
    equal([tuple(map(int, c)) for c in model.cells], state.cells,
        'cells' + what)
    if state.N is not None:
        equal([[int(x) for x in n] for n in model.N], state.N, 'N' + what)
    if state.sorted:
        is_standard(model.R)
    for q in QS:
        close(model.W(*q), state.W(q), 'interaction' + what, tol=1e-9)
    R = [tuple(map(int, r)) for r in model.R]
    for r in set(R[:3] + R[-2:]):
        if R.count(r) == 1:
            close(model.WR(*r), model.data[R.index(r)], 'interaction' + what)
    close(model.WR(0, 0, 91), np.zeros((state.size, state.size)),
        'missing interaction' + what)
