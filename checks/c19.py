"""C19: lattices, paths, and coordinates."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import contextlib, io, itertools, math
import numpy as np

import elphmod.bravais as b

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C19', 'exploration',
    rule='all Bravais-lattice indices and parameter forms; all sequences of '
    'labelled points up to length 3 (4) with all options; all mesh densities '
    'and lattices; oracle: conventional cells and centering vectors, explicit '
    'geometry, Brillouin-zone definition; trivial: single points')

# --- lattices

# centering of conventional cell as in documentation of Quantum ESPRESSO
H = 0.5
CENTERING = {
    1: np.eye(3),
    2: [[-H, 0, H], [0, H, H], [-H, H, 0]],
    3: [[H, H, H], [-H, H, H], [-H, -H, H]],
    -3: [[-H, H, H], [H, -H, H], [H, H, -H]],
    6: np.eye(3),
    7: [[H, -H, H], [H, H, H], [-H, -H, H]],
    8: np.eye(3),
    9: [[H, H, 0], [-H, H, 0], [0, 0, 1]],
    -9: [[H, -H, 0], [H, H, 0], [0, 0, 1]],
    91: [[1, 0, 0], [0, H, -H], [0, H, H]],
    10: [[H, 0, H], [H, H, 0], [0, H, H]],
    11: [[H, H, H], [-H, H, H], [-H, -H, H]],
    12: np.eye(3),
    -12: np.eye(3),
    13: [[H, 0, -H], [0, 1, 0], [H, 0, H]],
    -13: [[H, H, 0], [-H, H, 0], [0, 0, 1]],
    14: np.eye(3),
    4: np.eye(3),
    }
CUBIC, TETRA = (1, 2, 3, -3), (6, 7, 4)

def conventional(ibrav, a, B, C, cosbc, cosac, cosab):
    """Conventional cell, first vector along x, second in xy plane."""

    if ibrav in CUBIC:
        B = C = a
    if ibrav in TETRA:
        B = a
    ca, cb, cg = 0.0, 0.0, 0.0
    if ibrav == 4:
        cg = -0.5
    if ibrav in (12, 13):
        cg = cosab
    if ibrav in (-12, -13):
        cb = cosac
    if ibrav == 14:
        ca, cb, cg = cosbc, cosac, cosab
    sg = math.sqrt(1 - cg ** 2)
    y = (ca - cb * cg) / sg
    z = math.sqrt(1 - cb ** 2 - y ** 2)
    return np.array([[a, 0, 0], [B * cg, B * sg, 0], [C * cb, C * y, C * z]])

def parameters(ibrav, variant):
    A, B, C = [(5.0, 6.5, 7.7), (3.2, 2.9, 10.3), (4.0, 4.0, 4.0)][variant]
    c = [(0.2, -0.3, 0.1), (-0.15, 0.25, -0.4), (0.3, 0.3, 0.3)][variant]
    return A, B, C, *c

@check.family
def lattice(ctx, ibrav, variant, form, bohr):
    """Primitive vectors span lattice with given constants and angles."""

    A, B, C, bc, ac, ab = parameters(ibrav, variant)
    a0 = elphmod.misc.a0
    cell = [0.0] * 6
    if form == 'abc':
        kw = dict(a=A, b=B, c=C, cosbc=bc, cosac=ac, cosab=ab)
        unit = 1 / a0 if bohr else 1
    else:
        cell = [A, B / A, C / A, 0.0, 0.0, 0.0]
        if ibrav == 14:
            cell[3:] = bc, ac, ab
        elif ibrav in (-12, -13):
            cell[4] = ac
        else:
            cell[3] = ab
        kw = dict(celldm=cell)
        if form == 'array':
            kw = dict(celldm=np.array(cell))
        unit = 1 if bohr else a0
    got = b.primitives(ibrav=ibrav, bohr=bohr, prefix='ignored', **kw)
    if ibrav in (5, -5):
        got = np.asarray(got) / unit
        close(np.linalg.norm(got, axis=1), [A] * 3, 'lengths')
        G = got @ got.T / A ** 2
        close([G[0, 1], G[0, 2], G[1, 2]], [ab] * 3, 'angles')
        axis = got.sum(axis=0)
        axis /= np.linalg.norm(axis)
        close(axis, [0, 0, 1] if ibrav == 5 else [3 ** -0.5] * 3,
            'threefold axis')
        require(np.linalg.det(got) > 0, 'handedness')
        # one vector in mirror plane
        if ibrav == 5:
            close(got[1, 0], 0.0, 'second vector')
            close(got[0] * [-1, 1, 1], got[2], 'mirror image')
        else:
            close(got[0, [0, 2, 1]], got[0], 'mirror image')
            close(got[1, [2, 1, 0]], got[1], 'mirror image')
    else:
        want = np.array(CENTERING[ibrav]) @ conventional(ibrav, A, B, C, bc,
            ac, ab)
        close(got, want * unit, 'primitive vectors')
    again = b.primitives(ibrav=ibrav, bohr=bohr, prefix='ignored', **kw)
    close(again, got * (unit if ibrav in (5, -5) else 1), 'second call')
    # Voronoi volume, reciprocal vectors
    got = np.array(again)
    B_ = np.array(b.reciprocals(*got))
    close(got @ B_.T, np.eye(3), 'reciprocal vectors')
    close(b.volume(*got), abs(np.linalg.det(got)), 'volume')
    ctx.outcome((ibrav, variant, form, bohr, got))

@check.family
def free(ctx, lat, units, bohr):
    """Given cell vectors."""

    a = gen.lattice(lat)
    alat = np.linalg.norm(a[0])
    a0 = elphmod.misc.a0
    r = dict(alat=a / alat, bohr=a, angstrom=a * a0)[units.lower()]
    copy = r.copy()
    for kw in dict(a=alat * a0), dict(celldm=[alat]), dict(celldm=[alat,
            0.0, 0.0]):
        for _ in range(2):
            got = b.primitives(ibrav=0, r_cell=r, cell_units=units, bohr=bohr,
                **kw)
            close(got, a if bohr else a * a0, 'lattice vectors')
        equal(r.tolist(), copy.tolist(), 'given vectors')
    B = np.array(b.reciprocals(*a))
    close(B @ a.T, np.eye(3), 'reciprocal vectors')
    close(b.reciprocals(*B), a, 'reciprocal of reciprocal vectors')
    close(b.volume(*a) * b.volume(*B), 1.0, 'volumes')
    ctx.outcome((lat, units, bohr))

@check.family
def plane(ctx, angle, angle0):
    """Two-dimensional lattices and rotations."""

    deg = math.pi / 180
    a1, a2 = b.translations(angle, angle0)
    want = np.array([[math.cos(angle0 * deg), math.sin(angle0 * deg)],
        [math.cos((angle0 + angle) * deg), math.sin((angle0 + angle) * deg)]])
    close([a1, a2], want, 'translations')
    A1, A2 = b.translations(angle, angle0, two_dimensional=False)
    close([A1, A2], np.hstack([want, np.zeros((2, 1))]), 'translations in 3D')
    B = np.array(b.reciprocals(a1, a2))
    close(want @ B.T, np.eye(2), 'reciprocal vectors')
    close(b.volume(a1, a2), abs(math.sin(angle * deg)), 'area')
    close(b.volume(a1), a1[0], 'length')
    v = np.array([0.3, -1.2])
    for phi in angle * deg, -angle0 * deg, 0.7:
        z = complex(*v) * complex(math.cos(phi), math.sin(phi))
        close(b.rotate(v, phi), [z.real, z.imag], 'rotation')
        close(b.rotate([*v, 5.0], phi, two_dimensional=False), [z.real, z.imag,
            5.0], 'rotation about z axis')

    # Brillouin zone
    if angle in (60, 90, 120):
        outline = b.BZ(angle, angle0)
        close(outline[0], outline[-1], 'closed outline')
        corners = outline[:-1]
        equal(len(corners), 4 if angle == 90 else 6, 'number of corners')
        x, y = outline.T
        area = abs((x[:-1] * y[1:] - x[1:] * y[:-1]).sum()) / 2
        close(area, abs(np.linalg.det(B)), 'area of Brillouin zone')
        for c in corners:
            d = sorted(np.linalg.norm(c - np.array(g) @ B)
                for g in itertools.product(range(-2, 3), repeat=2))
            n = 4 if angle == 90 else 3
            close(d[:n], [np.linalg.norm(c)] * n, 'distances of corner')
            require(d[n] > d[0] + 0.1, 'corner')
    ctx.outcome((angle, angle0, B))

@check.family
def coordinates(ctx, lat, n, dim):
    """Crystal and Cartesian coordinates."""

    a = gen.lattice(lat)
    R = gen.real((n, 3), 'coordinates', lat) * 4
    I = np.round(R).astype(int)
    for x in R, I, R[:, ::-1], np.asfortranarray(R):
        c = x.copy()
        if dim == 3:
            r = b.crystal_to_cartesian(x, *a)
            close(r, x @ a, 'Cartesian coordinates')
            close(b.cartesian_to_crystal(r, *a), x, 'crystal coordinates')
            close(b.cartesian_to_crystal(x, *a), x @ np.linalg.inv(a),
                'crystal coordinates')
        else:
            r = b.crystal_to_cartesian(x[:, :2], a[0, :2], a[1, :2])
            close(r, x[:, :2] @ a[:2, :2], 'Cartesian coordinates')
        equal(x.tolist(), c.tolist(), 'given coordinates')
    ctx.outcome((lat, n, dim, r), n > 0)

@check.family
def segments(ctx, dim):
    """Points between two points."""

    grid = list(itertools.product((-1.0, 0.0, 2.0), repeat=dim))
    for A, B in itertools.product(grid, repeat=2):
        A, B = np.array(A + (0.0,) * (3 - dim)), np.array(B
            + (0.0,) * (3 - dim))
        for t in -0.5, 0.0, 0.25, 1.0, 1.5:
            P = A + t * (B - A)
            inside = 0 <= t <= 1 or not (A - B).any()
            equal(bool(b.point_on_path(P, A, B)), inside,
                '%s between %s and %s' % (P, A, B))
            d = np.cross(B - A, [0.3, 0.7, 1.1])
            if abs(d).max() > 0.01:
                require(not b.point_on_path(P + d, A, B), 'point off line')
    ctx.outcome(dim)

# --- meshes

@check.family
def meshes(ctx, n):
    """Uniform meshes and their printed form."""

    n = tuple(n)
    want = np.array([[2 * math.pi * i / N for i, N in zip(x, n)]
        for x in itertools.product(*map(range, n))])
    got = b.mesh(*n)
    equal(got.shape, n + (len(n),), 'shape')
    close(got.reshape((-1, len(n))), want, 'mesh')
    require(got.flags.c_contiguous and got.flags.writeable, 'contiguity')
    close(b.mesh(*n, flat=True), want, 'flat mesh')
    if len(n) == 3:
        for weights in False, True:
            for asked in itertools.product((False, True), repeat=3):
                answers = [('%d' % m) if m > 1 else '' for m, x in zip(n,
                    asked) if x]
                args = [None if x else m for m, x in zip(n, asked)]
                if asked[0]:
                    answers.append('y' if weights else 'n')
                    args.append(None)
                else:
                    args.append(weights)
                import builtins
                true = builtins.input
                builtins.input = lambda text: answers.pop(0)
                out = io.StringIO()
                try:
                    with contextlib.redirect_stdout(out):
                        b.kpoints(*args)
                finally:
                    builtins.input = true
                lines = out.getvalue().splitlines()
                equal(int(lines[0]), len(want), 'number of k points')
                rows = [[float(x) for x in line.split()] for line in lines[1:]]
                equal(len(rows), len(want), 'number of lines')
                x = want / (2 * math.pi)
                if weights:
                    x = np.hstack([x, np.full((len(x), 1), 1 / len(x))])
                close(rows, x, 'printed mesh', tol=1e-9)
    ctx.outcome(n, math.prod(n) > 1)

# --- paths

LABELS = {1: 'MRX', 2: 'XLWUK', 3: 'HPN', -3: 'HPN', 4: 'AMLKH', 6: 'XMZRA',
    7: 'XMZRA', 8: 'XYZSTUR', 9: 'YyZTtSR', -9: 'YyZTtSR', 12: 'BYZDCAE',
    -12: 'BYZDCAE', 14: '', 5: ''}

# number of nearest reciprocal lattice points (regular cases)
NEAREST = {1: dict(M=4, R=8, X=2), 2: dict(X=2, L=2, W=4, U=3, K=3),
    3: dict(H=6, P=4, N=2), -3: dict(H=6, P=4, N=2),
    4: dict(A=2, M=2, L=4, K=3, H=6), 6: dict(X=2, M=4, Z=2, R=4, A=8),
    8: dict(X=2, Y=2, Z=2, S=4, T=4, U=4, R=8)}

def constants(ibrav):
    return dict(ibrav=ibrav, a=5.0, b=5.5, c=6.1, cosbc=0.1, cosac=0.15,
        cosab=0.05 if ibrav in (5, 14) else 0.2)

def point(ibrav, label):
    """Crystal coordinates of labelled point as end of path."""

    k, x, corners = b.path(['G', label], N=1.0, **constants(ibrav))
    return k[-1] / (2 * math.pi)

@check.family
def labels(ctx, ibrav):
    """Labelled points have high symmetry."""

    kw = constants(ibrav)
    a = b.primitives(**kw)
    B = np.array(b.reciprocals(*a))
    close(point(ibrav, 'G'), np.zeros(3), 'center')
    seen = []
    for label in LABELS[ibrav]:
        p = point(ibrav, label)
        k = p @ B
        for other in seen:
            require(abs(other - k).max() > 1e-3, 'equal points')
        seen.append(k)
        G = np.array(list(itertools.product(range(-3, 4), repeat=3))) @ B
        d = np.sort(np.linalg.norm(k - G, axis=1))
        if ibrav in NEAREST:
            n = NEAREST[ibrav][label]
            close(d[:n], [np.linalg.norm(k)] * n, 'distances from %s' % label)
            require(d[n] > d[0] + 1e-4, 'number of distances from %s', label)
        elif label != 'P' and ibrav != 7:
            close(2 * p, np.round(2 * p), 'time reversal of %s' % label)
        partner = {3: -3, -3: 3, 9: -9, -9: 9, 7: 6}.get(ibrav)
        if partner is not None:
            other = dict(kw, ibrav=partner)
            q = point(partner, label) @ np.array(b.reciprocals(
                *b.primitives(**other)))
            close(k, q, 'alternative description of %s' % label)
    # all points in common irreducible wedge: no image of a point is closer to
    # another point than the point itself
    B2 = B @ B.T
    group = [W for W in (np.array(w).reshape((3, 3)) for w in
        itertools.product((-1, 0, 1), repeat=9))
        if abs(W @ B2 @ W.T - B2).max() < 1e-6]
    known = [point(ibrav, label) for label in LABELS[ibrav]]
    for p, q in itertools.permutations(known, 2):
        d = np.linalg.norm((p - q) @ B)
        for W in group:
            require(np.linalg.norm((p @ W - q) @ B) > d - 1e-6,
                'points %s and %s are not in the same wedge', p, q)
    # coordinates along axes
    for label, axis in dict(X=0, Y=1, Z=2).items():
        if ibrav in (6, 8, 7) and label in LABELS[ibrav]:
            k = point(ibrav, label) @ B
            require(k[axis] > 1e-3 and abs(np.delete(k, axis)).max() < 1e-9,
                'axis of %s: %s', label, k)
    ctx.outcome((ibrav, seen), len(seen) > 0)

@check.family
def route(ctx, ibrav, start, depth, N, moveG, qe, explicit):
    """Paths through labelled points."""

    kw = constants(ibrav)
    B = np.array(b.reciprocals(*b.primitives(**kw)))
    known = {x: point(ibrav, x) for x in 'G' + LABELS[ibrav]}
    names = list(known)[:5]
    for rest in itertools.chain(*[itertools.product(names, repeat=n)
            for n in range(1, depth)]):
        word = (start,) + rest
        P = np.array([known[x] for x in word])
        given = [known[x].copy() if i % 2 == explicit else x
            for i, x in enumerate(word)] if explicit < 2 else P.copy()
        args = dict(kw)
        out = b.path(given, N=N, qe=qe, moveG=moveG, **args)
        k, x, corners = out[:3]
        k = k / (2 * math.pi)
        # expected
        dist = np.linalg.norm(np.diff(P, axis=0) @ B, axis=1)
        want, xs, idx, n0 = [], [], [0], 0.0
        for i, d in enumerate(dist):
            n = max(1, int(round(N * d)))
            G = not P[i].any()
            first = i == 0 or (moveG and G)
            for j in range(0 if first else 1, n + 1):
                want.append(P[i] + (P[i + 1] - P[i]) * j / n)
                xs.append(n0 + d * j / n)
            idx.append(len(want) - 1)
            n0 += d
        want = np.array(want).reshape((-1, 3))
        equal(list(corners), idx, 'corners of %s' % (word,))
        equal(len(k), len(want), 'number of points')
        close(x, xs, 'distances', tol=1e-9)
        if moveG:
            for i in range(len(P)):
                if P[i].any() or not len(want):
                    continue
                c = idx[i]
                if i:
                    want[c] = want[c] + moveG * want[c - 1]
                    if i < len(P) - 1:
                        want[c + 1] = want[c + 1] + moveG * want[c + 2]
                else:
                    want[c] = want[c] + moveG * want[c + 1]
        if len(k):
            close(k, want, 'points along %s' % (word,), tol=1e-9)
        if qe:
            pw = out[3]
            equal(pw['ktyp'], 'crystal_b', 'type of k points')
            equal(pw['nks'], len(P), 'number of k points')
            K = np.array(pw['k_points'])
            equal(K.shape, (len(P), 4), 'shape of k points')
            if len(k):
                close(K[:, :3], k[idx], 'corners of Quantum ESPRESSO path',
                    tol=1e-9)
                equal(K[:, 3].tolist(), np.diff(idx).tolist() + [0],
                    'steps of Quantum ESPRESSO path')
            if not moveG and len(P) > 1:
                full = []
                for i in range(len(P) - 1):
                    w = int(K[i, 3])
                    for j in range(w):
                        full.append(K[i, :3] + (K[i + 1, :3] - K[i, :3])
                            * j / w)
                full.append(K[-1, :3])
                close(full, k, 'path of Quantum ESPRESSO', tol=1e-9)
        ctx.traces += 1
    ctx.outcome((ibrav, start, depth, N, moveG, qe, explicit))

@check.family
def lattice_given(ctx, lat, N, dim):
    """Paths for given reciprocal vectors."""

    B = np.linalg.inv(gen.lattice(lat)[:dim, :dim]).T
    P = gen.real((4, dim), 'path', lat)
    k, x, corners = b.path(P, N=N, recvec=B) if dim == 3 else b.path(P, N=N,
        recvec=B)
    close(k[corners] / (2 * math.pi), P, 'corners')
    close(x[corners], np.append(0, np.cumsum(np.linalg.norm(np.diff(P @ B,
        axis=0), axis=1))), 'distances of corners')
    close(np.diff(x), np.linalg.norm(np.diff(k @ B / (2 * math.pi), axis=0),
        axis=1), 'distances')
    for i in range(3):
        d = np.diff(k[corners[i]:corners[i + 1] + 1], axis=0)
        close(d, [d[0]] * len(d), 'equal steps', tol=1e-9)
    ctx.outcome((lat, N, dim, k))

@check.family
def gmkg(ctx, angle, mesh, straight, lift, N):
    """Standard path for hexagonal lattice."""

    path, x, c = b.GMKG(N, corner_indices=True, mesh=mesh, angle=angle,
        straight=straight, lift_degen=lift)
    p2, x2 = b.GMKG(N, mesh=mesh, angle=angle, straight=straight,
        lift_degen=lift)
    equal(path.tolist(), p2.tolist(), 'path')
    equal(x.tolist(), x2.tolist(), 'distances')
    equal(len(x), len(path), 'lengths')
    B = np.array(b.reciprocals(*b.translations(180 - angle)))
    k = path / (2 * math.pi)
    K = k @ B
    close(k[0], [0, 0], 'center')
    close(k[-1], [0, 0], 'center')
    close(np.linalg.norm(K[c[1]]), 1 / 3 ** 0.5, 'distance of M')
    close(2 * k[c[1]], np.round(2 * k[c[1]]), 'time reversal of M')
    close(np.linalg.norm(K[c[2]]), 2 / 3, 'distance of K', tol=1e-8)
    close(3 * k[c[2]], np.round(3 * k[c[2]]), 'symmetry of K', tol=1e-8)
    # slightly shifted toward center
    if lift:
        s = np.round(3 * k[c[2]]) / 3 @ B
        require(0 < np.linalg.norm(s) - np.linalg.norm(K[c[2]]) < 1e-9, 'K')
    close(x[c], np.cumsum([0, 3 ** -0.5, 1 / 3, 2 / 3]), 'corners')
    steps = np.linalg.norm(np.diff(K, axis=0), axis=1)
    for i in range(3):
        s = slice(c[i], c[i + 1])
        d = np.diff(x)[s]
        close(d, [d[0]] * len(d), 'equal steps', tol=1e-9)
        # between M and K, the last step leads to equivalent point
        s = slice(c[i], c[i + 1] - (1 if i == 1 and straight else 0))
        close(steps[s], np.diff(x)[s], 'steps', tol=1e-8)
    if mesh and N % 6 == 0:
        close(k * N, np.round(k * N), 'points on mesh', tol=1e-6)
        close(np.diff(x)[:c[1]], [2 / 3 ** 0.5 / N] * c[1], 'mesh spacing')
    else:
        for i, L in enumerate([3 ** -0.5, 1 / 3, 2 / 3]):
            equal(c[i + 1] - c[i], int(round(N * L)), 'number of points')
    if straight:
        u, v = K[c[1] + 1] - K[c[1]], K[-1] - K[-2]
        if c[2] - c[1] > 1:
            close(u[0] * v[1] - u[1] * v[0], 0.0, 'straight line', tol=1e-8)
            require(u @ v > 0, 'direction')
    ctx.outcome((angle, mesh, straight, lift, N))

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'
    yield from [('labels', dict(ibrav=i)) for i in LABELS]
    for ibrav in [*CENTERING, 5, -5]:
        for variant in range(3):
            if variant == 1 and ibrav in (14,):
                pass
            for form in 'abc', 'list', 'array':
                for bohr in False, True:
                    yield 'lattice', dict(ibrav=ibrav, variant=variant,
                        form=form, bohr=bohr)
    for lat in gen.LATTICES:
        for units in 'alat', 'bohr', 'angstrom', 'Angstrom', 'BOHR':
            for bohr in False, True:
                yield 'free', dict(lat=lat, units=units, bohr=bohr)
        for n in 0, 1, 4:
            for dim in 2, 3:
                yield 'coordinates', dict(lat=lat, n=n, dim=dim)
        for N in 0.1, 1, 7.5, 30, 100:
            for dim in 2, 3:
                if lat == 'fcc' and dim == 2:
                    continue
                yield 'lattice_given', dict(lat=lat, N=N, dim=dim)
    for angle in 30, 60, 90, 100, 120:
        for angle0 in 0, 17, 90, -60, 180:
            yield 'plane', dict(angle=angle, angle0=angle0)
    for dim in 1, 2, 3:
        yield 'segments', dict(dim=dim)
    for n in itertools.product((1, 2, 3, 4), repeat=3):
        yield 'meshes', dict(n=n)
    for n in (1,), (5,), (2, 3), (6, 1), (2, 1, 3, 2):
        yield 'meshes', dict(n=n)

    for ibrav in LABELS:
        for start in 'G' + LABELS[ibrav]:
            for N in (1, 20) if thorough else (20,):
                for moveG in 0, 1e-3, 0.5:
                    for qe in False, True:
                        for explicit in 0, 1, 2:
                            if explicit != 2 and moveG:
                                continue
                            yield 'route', dict(ibrav=ibrav, start=start,
                                depth=4 if thorough else 3, N=N, moveG=moveG,
                                qe=qe, explicit=explicit)
    for angle in 60, 120:
        for mesh, straight, lift in itertools.product((False, True),
                repeat=3):
            for N in [*range(2, 20), 24, 30, 31, 60, 120, 600]:
                yield 'gmkg', dict(angle=angle, mesh=mesh, straight=straight,
                    lift=lift, N=N)

check.main()
