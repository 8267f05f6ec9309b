"""C13: bands diagonalize the matrix, keep their identity and unfold."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais as bravais
import elphmod.dispersion as dispersion

from mc import gen, ref
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C13', 'exploration',
    rule='all sequences of level orders (crossings and degeneracies) along '
    'paths for up to 4 bands and 5 points; all mesh sizes, lattice angles and '
    'band functions; all supercells up to determinant 6 and wave vectors; '
    'oracle: the character of each band is known by construction, projections '
    'onto Bloch functions; trivial: no crossing, no supercell')

def unitary(n, *seed):
    return np.linalg.qr(gen.cplx((n, n), 'U', *seed))[0]

def rotation(n, angle, *seed):
    """Unitary matrix close to identity."""

    A = gen.cplx((n, n), 'A', *seed)
    e, V = np.linalg.eigh((A + A.conj().T) / n)
    return (V * np.exp(1j * angle * e)) @ V.conj().T

# --- ordering along paths

def levels(pattern, bands):
    """Energy of each band (by character) from ranks."""

    return [float(x) for x in pattern]

@check.family
def order(ctx, bands, patterns, smooth, by_mean):
    """Follow characters of states for given sequence of level orders."""

    points = len(patterns)
    # spacing and position of levels differs from point to point
    E = np.array([[x * (1, 7, 0.5, 4, 2)[n % 5] + (0, -3, 2)[n % 3]
        for x in p] for n, p in enumerate(patterns)]) # [point, character]
    W = unitary(bands, 'start')
    v = np.empty((points, bands))
    V = np.empty((points, bands, bands), dtype=complex)
    index = []

    for n in range(points):
        U = W @ (rotation(bands, 0.2 * n, 'smooth') if smooth
            else np.eye(bands))
        sort = np.argsort(E[n], kind='stable')
        v[n] = E[n][sort]
        V[n] = U[:, sort] * np.exp(1j * gen.real(bands, 'phase', n) * 7)

        # arbitrary basis of degenerate states:
        i = 0
        while i < bands:
            j = i
            while j < bands and v[n, j] == v[n, i]:
                j += 1
            if j - i > 1:
                V[n, :, i:j] = V[n, :, i:j] @ unitary(j - i, 'mix', n)
            i = j
        index.append(sort)

    v0, V0 = v.copy(), V.copy()
    o = dispersion.band_order(v, V, by_mean=by_mean, status=False)
    require(np.array_equal(v, v0) and np.array_equal(V, V0),
        'arguments modified')

    for n in range(points):
        equal(sorted(o[n].tolist()), list(range(bands)),
            'bands at point %d (each once)' % n)

    # character of each ordered band at non-degenerate points:
    nondeg = [n for n in range(points) if len(set(E[n])) == bands]
    chars = {n: [int(index[n][o[n, i]]) for i in range(bands)] for n in nondeg}
    if 0 in nondeg:
        for n in nondeg:
            equal(chars[n], chars[0], 'characters at point %d' % n)
            close(v[n, o[n]], E[n][chars[0]], 'energies')
        if not by_mean:
            equal(chars[0], index[0].tolist(), 'start order')
    elif nondeg:
        # starting point degenerate: consistent from first clean point on
        for n in nondeg:
            equal(chars[n], chars[nondeg[0]], 'characters at point %d' % n)
    if by_mean:
        means = [sum(v[n, o[n, i]] for n in range(points))
            for i in range(bands)]
        require(all(a <= b + 1e-9 for a, b in zip(means, means[1:])),
            'bands sorted by average energy: %s', means)
    if len(nondeg) == points:
        # maximum step just large enough for the true bands
        dv = max([abs(a - b).max() for a, b in zip(E, E[1:])], default=0.0)
        equal(dispersion.band_order(v, V, by_mean=by_mean, dv=dv + 1e-6,
            status=False).tolist(), o.tolist(), 'order for maximum step')
    ctx.outcome((bands, patterns, smooth, by_mean, o),
        len(set(map(tuple, patterns))) > 1)

@check.family
def limit(ctx, gap):
    """Maximum step decides at narrow anticrossings."""

    # characters swap between points 1 and 2
    v = np.array([[0.0, 1.0], [0.4, 0.6], [0.4, 0.6], [0.0, 1.0]])
    v[1:3] += np.array([[-gap, gap]]) / 2
    V = np.array([np.eye(2), np.eye(2), np.eye(2)[::-1], np.eye(2)[::-1]])
    for dv, flip in (float('inf'), True), (1.0, True), (0.1, False):
        o = dispersion.band_order(v, V, by_mean=False, dv=dv, status=False)
        if dv == 0.1: # steps of 0.4 exceed limit too unless bands are flat
            w = np.array([[0.4, 0.6]] * 4)
            o = dispersion.band_order(w, V, by_mean=False, dv=dv, status=False)
        want = [[0, 1], [0, 1]] + ([[1, 0], [1, 0]] if flip else [[0, 1]] * 2)
        equal(o.tolist(), want, 'order for maximum step %s' % dv)
    ctx.outcome(gap)

# --- diagonalization

BANDS = [
    lambda s, d: s,
    lambda s, d: 0.7 + 0 * s,
    lambda s, d: 0.21 - 0.45 * s,
    lambda s, d: 0.1 * s * s - 0.35,
    ]

def symmetric(angle, *k):
    k1, k2 = k[:2]
    c = np.cos(k1) + np.cos(k2)
    if angle == 60:
        c = c + np.cos(k1 + k2)
    elif angle == 120:
        c = c + np.cos(k1 - k2)
    return c

def hamiltonian(bands, angle, hybrid=0.0):
    W = unitary(bands, 'hamiltonian')
    funs = BANDS[:bands]

    def H(k1=0.0, k2=0.0, k3=0.0):
        s = symmetric(angle, k1, k2)
        D = np.diag([f(s, k3) for f in funs]).astype(complex)
        D = D + hybrid * np.cos(s) * (np.ones((bands, bands)) - np.eye(bands))
        return W @ D @ W.conj().T

    return H, W

def phase_free(H, v, V, what):
    """Eigenvalues and -vectors belong to matrix."""

    close(H @ V, V * v, what + ': eigenvectors', tol=1e-9)
    close(V.conj().T @ V, np.eye(len(v)), what + ': orthonormality', tol=1e-9)

@check.family
def points(ctx, bands, shape, gauge, order):
    """Arbitrary shapes of lists of wave vectors."""

    H, W = hamiltonian(bands, 60, 0.1)
    dim = shape[-1]
    k = gen.real(tuple(shape), 'k') * 4
    flat = k.reshape((-1, dim))
    mesh = tuple(shape[:-1])
    v = dispersion.dispersion(H, k)
    equal(v.shape, mesh + (bands,), 'shape')
    for i, q in enumerate(flat):
        close(v.reshape((-1, bands))[i], np.linalg.eigvalsh(H(*q)),
            'eigenvalues', tol=1e-9)
    out = dispersion.dispersion(H, k, vectors=True, gauge=gauge, order=order)
    close(np.sort(out[0]), v, 'eigenvalues', tol=1e-9)
    equal(out[1].shape, mesh + (bands, bands), 'shape of eigenvectors')
    for i, q in enumerate(flat):
        V = out[1].reshape((-1, bands, bands))[i]
        phase_free(H(*q), out[0].reshape((-1, bands))[i], V, 'point %d' % i)
        if gauge:
            for b in range(bands):
                x = max(V[:, b], key=abs)
                require(x.real > 0 and abs(x.imag) < 1e-12,
                    'largest element of eigenvector is %s', x)
    if order:
        o = out[2].reshape((-1, bands))
        for i in range(len(flat)):
            close(v.reshape((-1, bands))[i, o[i]],
                out[0].reshape((-1, bands))[i], 'order', tol=1e-9)
        w, o2 = dispersion.dispersion(H, k, order=True)
        close(w, out[0], 'eigenvalues without eigenvectors', tol=1e-9)
        equal(o2.tolist(), out[2].tolist(), 'order without eigenvectors')

    # one-dimensional list of numbers
    if dim == 1:
        close(dispersion.dispersion(H, flat[:, 0]), v.reshape((-1, bands)),
            'eigenvalues for list of numbers')
    close(dispersion.sample(H, k), np.reshape([H(*q) for q in flat], mesh
        + (bands, bands)), 'sampled matrix')
    close(dispersion.sample(lambda *q, dim=dim, c=0.0: np.array([*q, c]) if q
        else np.zeros(dim + 1), k, c=7.0), np.concatenate((k,
        np.full((*mesh, 1), 7.0)), axis=-1), 'sampled points', tol=0.0)
    ctx.outcome((bands, shape, gauge, order, v), bands > 1)

@check.family
def general(ctx, bands, n):
    """Non-Hermitian matrices."""

    A = gen.cplx((2, bands, bands), 'general')
    H = lambda k1=0, k2=0, k3=0: A[0] + np.exp(1j * k1) * A[1]
    k = gen.real((n, 1), 'k')
    v, V = dispersion.dispersion(H, k, hermitian=False, vectors=True)
    w = dispersion.dispersion(H, k, hermitian=False)
    for i in range(n):
        close(H(k[i, 0]) @ V[i], V[i] * v[i], 'eigenvectors', tol=1e-8)
        close(np.linalg.norm(V[i], axis=0), np.ones(bands), 'norm')
        close(v[i], w[i], 'eigenvalues', tol=1e-8)
        close(sum(v[i]), np.trace(H(k[i, 0])), 'trace', tol=1e-8)
        close(np.prod(v[i]), np.linalg.det(H(k[i, 0])), 'determinant', tol=1e-8)
        require(all(a.real <= b.real for a, b in zip(v[i], v[i][1:])),
            'eigenvalues are sorted')
    ctx.outcome((bands, n, v), bands > 1)

@check.family
def rotated(ctx, atoms, angle, n):
    """Alignment of displacements with wave vector."""

    a1, a2 = bravais.translations(180 - angle)
    b1, b2 = bravais.reciprocals(a1, a2)
    C = gen.cplx((2, 3 * atoms, 3 * atoms), 'rotated')
    C = C + C.conj().swapaxes(1, 2)
    D = lambda q1=0, q2=0, q3=0: C[0] + np.cos(q1 + 0.3 * q2) * C[1]

    for q in itertools.product(range(n), repeat=2):
        if not any(q):
            continue
        q = 2 * np.pi * (np.array(q) + [0.03, 0.04]) / n # no ties
        w0, V0 = dispersion.dispersion(D, [q], angle=angle, vectors=True)
        w, V = dispersion.dispersion(D, [q], angle=angle, vectors=True,
            rotate=True)
        close(w, w0, 'frequencies', tol=1e-9)
        G = min(((q[0] + 2 * np.pi * i) * b1 + (q[1] + 2 * np.pi * j) * b2
            for i, j in itertools.product(range(-2, 3), repeat=2)),
            key=lambda x: x @ x)
        phi = np.arctan2(G[1], G[0])
        c, s = np.cos(phi), np.sin(phi)
        R = np.kron(np.eye(atoms), [[c, s, 0], [-s, c, 0], [0, 0, 1]])
        P = np.abs(V[0].conj().T @ R @ V0[0])
        close(P, np.eye(3 * atoms), 'rotated displacements for %s' % q,
            tol=1e-7)
    ctx.outcome((atoms, angle, n, V))

@check.family
def full(ctx, bands, size, angle, hybrid, order, vectors):
    """Whole mesh using symmetry."""

    H, W = hamiltonian(bands, angle, hybrid)
    out = dispersion.dispersion_full(H, size, angle=angle, order=order,
        vectors=vectors)
    nosym = dispersion.dispersion_full_nosym(H, size, angle=angle, order=order,
        vectors=vectors) if angle else None
    want = np.array([[np.linalg.eigvalsh(H(2 * np.pi * i / size,
        2 * np.pi * j / size)) for j in range(size)] for i in range(size)])

    for name, out in ('symmetry', out), ('no symmetry', nosym):
        out = out if isinstance(out, tuple) else (out,)
        equal(len(out), 1 + vectors + order, 'number of results')
        v = out[0]
        equal(v.shape, (size, size, bands), 'shape')
        close(np.sort(v), want, 'eigenvalues (%s)' % name, tol=1e-9)
        if not order:
            close(v, want, 'sorted eigenvalues (%s)' % name, tol=1e-9)
        for i, j in itertools.product(range(size), repeat=2):
            h = H(2 * np.pi * i / size, 2 * np.pi * j / size)
            if vectors:
                phase_free(h, v[i, j], out[1][i, j], name)
            if order:
                o = out[-1][i, j]
                equal(sorted(o.tolist()), list(range(bands)), 'bands')
                close(want[i, j][o], v[i, j], 'order', tol=1e-9)
            if order and vectors and not hybrid:
                gaps = np.diff(want[i, j])
                if len(gaps) == 0 or gaps.min() > 1e-3:
                    chars = [int(np.argmax(abs(W.conj().T @ out[1][i, j][:,
                        b]))) for b in range(bands)]
                    first = want[0, 0].argsort()
                    if (np.diff(want[0, 0]) > 1e-3).all():
                        ref_ = [int(np.argmax(abs(W.conj().T
                            @ out[1][0, 0][:, b]))) for b in range(bands)]
                        equal(chars, ref_, 'characters at (%d, %d), %s'
                            % (i, j, name))
    ctx.outcome((bands, size, angle, hybrid, order, v), size > 1)

@check.family
def rectangular(ctx, size):
    """Meshes of arbitrary dimension."""

    m = gen.el_model(elphmod, size=2, nmax=(1, 1, 1))
    v, V = dispersion.dispersion_full_nosym(m.H, size, vectors=True)
    equal(v.shape, (*size, 2), 'shape')
    for k in itertools.product(*map(range, size)):
        q = [2 * np.pi * x / n for x, n in zip(k, size)]
        phase_free(m.H(*q), v[k], V[k], 'point %s' % (k,))
    ctx.outcome((size, v), math.prod(size) > 1)

@check.family
def mapping(ctx, bands, shape, eps):
    """Identify states of two similar systems."""

    points = math.prod(shape)
    perms = list(itertools.permutations(range(bands)))
    for start in range(0, len(perms), max(points, 1)):
        mine = [perms[(start + i) % len(perms)] for i in range(points)]
        V1 = np.array([unitary(bands, 'map', i) for i in range(points)])
        V2 = np.array([(V @ rotation(bands, eps, i))[:, list(p)]
            * np.exp(1j * 7 * gen.real(bands, i)) for i, (V, p)
            in enumerate(zip(V1, mine))])
        got = dispersion.map_dispersions(V1.reshape((*shape, bands, bands)),
            V2.reshape((*shape, bands, bands)))
        equal(got.shape, (*shape, bands), 'shape')
        got = got.reshape((points, bands))
        for n, p in enumerate(mine):
            got_n = got[n].tolist()
            equal(sorted(got_n), list(range(bands)), 'each state once')
            if eps < 1:
                equal([p[i] for i in got_n], list(range(bands)), 'mapping')
    ctx.outcome((bands, shape, eps, got), bands > 1)

# --- unfolding

@check.family
def unfold(ctx, cell, size, kind, sgn):
    """Weights are projections; perfect supercells unfold perfectly."""

    if kind == 'el':
        m = gen.el_model(elphmod, size=size, nmax=(1, 1, 0))
        mat, sup = m.H, m.supercell(*cell)
        smat = sup.H
    else:
        m = gen.ph_model(elphmod, nat=size, nmax=(1, 1, 0))
        mat, sup = m.D, m.supercell(*cell)
        smat = sup.D

    N = np.array([c if hasattr(c, '__len__') else np.eye(3, dtype=int)[i] * c
        for i, c in enumerate(cell)])
    R = np.array(sup.cells)
    det = len(R)
    small = mat().shape[0]
    blocks = None

    for k in [(0.0, 0.0, 0.0), (0.4, 1.1, 0.0), (2.2, -0.7, 0.3)]:
        total = 0
        # all k that fold onto the same point, and equivalent ones
        b = np.linalg.inv(N) # columns: reciprocal supercell
        ks = []
        for G in itertools.product(range(-6, 7), repeat=3):
            x = np.array(k) + 2 * np.pi * b @ np.array(G)
            if not any(np.allclose(np.exp(1j * x), np.exp(1j * y)) for y in ks):
                ks.append(x)
        equal(len(ks), det, 'number of folded points')
        K = N @ np.array(k)
        e0, U0 = dispersion.dispersion(mat, ks, vectors=True)
        e, U = dispersion.dispersion(smat, [K] * det, vectors=True)
        w = dispersion.unfolding_weights(ks, R, U0, U, sgn=sgn)
        equal(w.shape, (det, det * small), 'shape')
        require((w > -1e-12).all() and (w < 1 + 1e-9).all(),
            'weights between zero and one')
        close(w.sum(axis=1), [small] * det, 'sum of weights', tol=1e-8)
        close(w.sum(axis=0), np.ones(det * small), 'sum over wave vectors',
            tol=1e-8)

        for i, x in enumerate(ks):
            P = np.zeros((small, det * small), dtype=complex)
            for r in range(det):
                P += np.exp(1j * sgn * np.dot(x, R[r])) * U[i].reshape((det,
                    small, -1))[r]
            close(w[i], np.sum(abs(P) ** 2, axis=0) / det, 'projection',
                tol=1e-8)
            if sgn == -1:
                for p in 1, 2, 3:
                    close(np.dot(w[i], e[i] ** p), np.sum(e0[i] ** p),
                        'moment %d of spectrum' % p, tol=1e-7)
    ctx.outcome((cell, size, kind, sgn, w), det > 1)

@check.family
def blocks(ctx, no, cells, removed, part):
    """Arbitrary order of orbitals and defects."""

    R = [(i, j) for i in range(2) for j in range(2)][:cells]
    labels = [(r, o) for r in range(cells) for o in range(no)]
    labels = [x for i, x in enumerate(labels) if i != removed]
    shuffle = gen.rng('shuffle', len(labels)).permutation(len(labels))
    labels = [labels[i] for i in shuffle]
    n = len(labels)
    nk = 3
    k = gen.real((nk, 2), 'k')
    U0 = np.array([unitary(no, i) for i in range(nk)])[:, :, :part]
    U = np.array([unitary(n, i) for i in range(nk)])
    b0 = [[o for r, o in labels if r == c] for c in range(cells)]
    b = [[i for i, (r, o) in enumerate(labels) if r == c] for c in range(cells)]
    w = dispersion.unfolding_weights(k, R, U0, U, blocks0=b0, blocks=b, sgn=1)
    want = np.zeros((nk, n))
    for i in range(nk):
        for m, s in itertools.product(range(part), range(n)):
            want[i, s] += abs(sum(np.exp(1j * np.dot(k[i], R[r]))
                * U0[i, o, m].conj() * U[i, j, s]
                for j, (r, o) in enumerate(labels))) ** 2 * part / n
    close(w, want, 'weights', tol=1e-9)
    ctx.outcome((no, cells, removed, part, w), cells > 1)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    # all sequences of level orders
    for bands, count in (1, 3), (2, 5 if thorough else 4), (3, 3), (4, 2):
        perms = list(itertools.permutations(range(bands)))
        for seq in itertools.product(perms, repeat=count):
            if bands == 4 and seq[0] > perms[6] and not thorough:
                continue
            for smooth in False, True:
                yield 'order', dict(bands=bands, patterns=seq, smooth=smooth,
                    by_mean=sum(map(sum, seq[1:])) % 2 == 0 or smooth)
    # with degeneracies
    for bands, count in (2, 4), (3, 3):
        pats = list(itertools.product(range(bands), repeat=bands))
        for seq in itertools.product(pats, repeat=count):
            if all(len(set(p)) == bands for p in seq):
                continue
            if bands == 3 and not thorough and (len(set(seq[0])) < 3
                    or len(set(seq[2])) < 3):
                continue
            yield 'order', dict(bands=bands, patterns=seq, smooth=False,
                by_mean=False)
    # several degenerate points in a row
    full = list(itertools.permutations(range(3)))
    part = [p for p in itertools.product(range(3), repeat=3)
        if len(set(p)) < 3]
    for a, b, c in itertools.product(full if thorough else full[:2], part,
            part):
        for d in full if thorough else full[::4]:
            yield 'order', dict(bands=3, patterns=[a, b, c, d], smooth=False,
                by_mean=False)
    full = list(itertools.permutations(range(4)))
    part = [p for p in itertools.product(range(2), repeat=4)
        if len(set(p)) == 2] + [(0, 0, 1, 2), (1, 0, 2, 1), (0, 2, 1, 0)]
    for a, b, c in itertools.product(full[::7], part, part):
        for d in full[::5] if thorough else full[::9]:
            yield 'order', dict(bands=4, patterns=[a, b, c, d], smooth=False,
                by_mean=False)
    for gap in 0.0, 0.01, 0.05:
        yield 'limit', dict(gap=gap)

    for bands in 1, 2, 3, 4:
        for shape in (1, 1), (4, 1), (3, 2), (2, 3, 2), (5, 3), (2, 2, 2, 3):
            for gauge, order in itertools.product((False, True), repeat=2):
                yield 'points', dict(bands=bands, shape=shape, gauge=gauge,
                    order=order)
        for n in 1, 3:
            yield 'general', dict(bands=bands, n=n)

    for atoms in 1, 2, 3:
        for angle in 60, 90, 120:
            for n in 2, 3, 4:
                yield 'rotated', dict(atoms=atoms, angle=angle, n=n)

    for bands in 1, 2, 3, 4:
        for size in range(1, 13 if thorough else 9):
            for angle in 60, 90, 120:
                for hybrid in 0.0, 0.2:
                    for order, vectors in itertools.product((False, True),
                            repeat=2):
                        if size > 6 and not (order and vectors):
                            continue
                        yield 'full', dict(bands=bands, size=size, angle=angle,
                            hybrid=hybrid, order=order, vectors=vectors)
    for size in (1,), (4,), (2, 3), (3, 1), (2, 1, 3), (1, 2, 2):
        if len(size) < 4:
            yield 'rectangular', dict(size=size)

    for bands in 1, 2, 3, 4:
        for shape in (), (1,), (3,), (2, 2), (1, 2, 3):
            for eps in 0.0, 0.2, 2.0, 3.0, 4.0:
                yield 'mapping', dict(bands=bands, shape=shape, eps=eps)

    cells = [(n, m, l) for n, m, l in itertools.product((1, 2, 3), repeat=3)
        if n * m * l <= 6]
    if thorough:
        cells += [(2, 2, 2), (4, 2, 1), (3, 3, 1)]
    cells += [((1, 1, 0), (-1, 1, 0), 1), ((2, 1, 0), (0, 1, 0), 2),
        ((1, 2, 0), (2, 1, 0), 1), ((2, 1, 0), (-1, 1, 0), (0, 1, 1)),
        ((0, 1, 0), (1, 0, 0), (0, 0, 2)), (-2, 1, 1)]
    for cell in cells:
        for size in 1, 2:
            for kind in 'el', 'ph':
                for sgn in -1, 1:
                    yield 'unfold', dict(cell=cell, size=size, kind=kind,
                        sgn=sgn)

    for no in 1, 2, 3:
        for n in 1, 2, 3, 4:
            for removed in (-1, 0, no * n - 1):
                if no * n == 1 and removed > -1:
                    continue
                for part in range(1, no + 1):
                    yield 'blocks', dict(no=no, cells=n, removed=removed,
                        part=part)

check.main()
