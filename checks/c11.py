"""C11: symmetry of the Brillouin zone."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais as bravais
import elphmod.dispersion as dispersion

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C11', 'exploration',
    rule='all mesh sizes and points, all assignments of few values to small '
    'meshes, all choices of known points; oracle: explicit Cartesian '
    'rotations and reflections; trivial: one-point mesh')

def group(angle):
    """Integer matrices of point group in basis of mesh axes."""

    phi = math.radians(angle)
    B = np.array([[1, 0], [math.cos(phi), math.sin(phi)]])
    n = 4 if angle == 90 else 6
    ops = []
    for reflect in False, True:
        for i in range(n):
            t = 2 * math.pi * i / n
            M = np.array([[math.cos(t), -math.sin(t)],
                [math.sin(t), math.cos(t)]])
            if reflect:
                # reflection that swaps both axes
                s = B[0] + B[1]
                s /= np.linalg.norm(s)
                M = M @ (2 * np.outer(s, s) - np.eye(2))
            # row vectors: k B M^T = k' B
            X = B @ M.T @ np.linalg.inv(B)
            R = np.round(X).astype(int)
            assert np.allclose(R, X)
            ops.append(R)
    return ops

GROUP = {angle: group(angle) for angle in (60, 90, 120)}

def orbit(k, nk, angle):
    return {tuple(int(x) for x in np.dot(k, R) % nk) for R in GROUP[angle]}

@check.family
def orbits(ctx, nk, angle):
    first = set()
    done = set()
    for k in itertools.product(range(nk), repeat=2):
        want = orbit(k, nk, angle)
        for i, j in (0, 0), (1, 0), (-1, 2):
            got = bravais.images(k[0] + i * nk, k[1] + j * nk, nk, angle)
            equal(sorted(got), sorted(want), 'images of %s' % (k,))
        if k not in done:
            first.add(k)
            done |= want
        ctx.outcome((nk, angle, k, sorted(want)), nontrivial=nk > 1)
    equal(sorted(bravais.irreducibles(nk, angle)), sorted(first),
        'irreducible points')

def cartesian(nk, angle, reflect, turn):
    """Mapping of mesh points under described symmetry operation."""

    # first real-space vector and second reciprocal vector along axes
    phi = math.radians(180 - angle)
    A = np.array([[1, 0], [math.cos(phi), math.sin(phi)]])
    B = np.linalg.inv(A).T
    t = math.radians(turn)
    M = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    if reflect:
        M = np.diag([-1, 1]) @ M
    image = {}
    for k in itertools.product(range(nk), repeat=2):
        K = A @ (M @ (np.array(k) @ B))
        assert np.allclose(K, np.round(K))
        image[k] = tuple(int(x) for x in np.round(K).astype(int) % nk)
    return image

def same(a, b, eps):
    return math.isnan(a) or math.isnan(b) or abs(a - b) <= eps

def find(ctx, data, angle, eps):
    nk = len(data)
    d = 90 if angle == 90 else 60

    for unity in True, False:
        want = []
        for reflect in False, True:
            for turn in range(0, 360, d):
                if not (reflect or turn or unity):
                    continue
                image = cartesian(nk, angle, reflect, turn)
                if all(same(data[k], data[image[k]], eps) for k in image):
                    want.append(((reflect, turn), image))

        before = data.copy()
        got = list(bravais.symmetries(data, epsilon=eps, unity=unity,
            angle=angle))
        require(np.array_equal(before, data, equal_nan=True), 'data modified')

        equal([name for name, image in got], [name for name, image in want],
            'symmetries of %s' % data.tolist())

        for (name, x), (_, y) in zip(got, want):
            for k in y:
                equal(tuple(int(i) for i in x[k]), y[k],
                    'image of %s under %s' % (k, name))

    ctx.outcome((data, angle, [n for n, _ in want]), nontrivial=nk > 1)

@check.family
def symmetries(ctx, nk, angle, values, first):
    first = list(first)
    for rest in itertools.product(values, repeat=nk * nk - len(first)):
        data = np.array(first + list(rest), dtype=float).reshape((nk, nk))
        find(ctx, data, angle, 0.0)

@check.family
def symmetries_generic(ctx, nk, angle, seed):
    """Data with each possible subgroup of symmetries."""

    h = gen.real((nk, nk), seed)
    ops = [cartesian(nk, angle, r, t) for r in (False, True)
        for t in range(0, 360, 90 if angle == 90 else 60)]

    for one, two in itertools.combinations(range(len(ops)), 2):
        # subgroup generated by two operations
        sub = {tuple(sorted(ops[0].items()))}
        queue = [ops[0]]
        while queue:
            x = queue.pop()
            for g in ops[one], ops[two]:
                y = {k: g[x[k]] for k in x}
                t = tuple(sorted(y.items()))
                if t not in sub:
                    sub.add(t)
                    queue.append(y)
        data = np.zeros((nk, nk))
        for t in sub:
            for k, K in t:
                data[k] += h[K]
        data = np.round(data, 6)
        find(ctx, data, angle, 0.0)
        find(ctx, data + 1e-4 * h, angle, 1e-2)
        hole = data.copy()
        hole[0, nk - 1] = hole[nk - 1, nk // 2] = np.nan
        find(ctx, hole, angle, 0.0)

def symmetric(nk, angle, seed):
    h = gen.real((nk, nk), seed)
    f = np.zeros((nk, nk))
    for k in itertools.product(range(nk), repeat=2):
        f[k] = h[min(orbit(k, nk, angle))]
    return f

@check.family
def complete(ctx, nk, angle, limit):
    """All choices of known points, at least one of each class."""

    f = symmetric(nk, angle, 1)
    irr = sorted(bravais.irreducibles(nk, angle))
    choices = itertools.product(*[sorted(orbit(k, nk, angle)) for k in irr])
    for n, known in enumerate(itertools.islice(choices, limit)):
        data = np.full((nk, nk), np.nan)
        for k in known:
            data[k] = f[k]
        if n % 3 == 2:
            # redundant information
            data[:, n % nk] = f[:, n % nk]
        got = bravais.complete(data, angle=angle)
        require(np.array_equal(got, f), 'completed data returned for %s: %s '
            'instead of %s', known, got, f.tolist())
        require(np.array_equal(data, f), 'completed data from %s: %s instead '
            'of %s', known, data.tolist(), f.tolist())
        ctx.outcome((nk, angle, known), nontrivial=len(known) < nk * nk)

    data = f.copy()
    got = bravais.complete(data, angle=angle)
    require(np.array_equal(got, f), 'complete data not returned')
    require(np.array_equal(data, f), 'complete data changed')

@check.family
def complete_k(ctx, nq, nk, cplx):
    ops = [(cartesian(nq, 60, r, t), cartesian(nk, 60, r, t))
        for r in (False, True) for t in range(0, 360, 60)]
    h = (gen.cplx if cplx else gen.real)((nq, nq, nk, nk), 2)
    f = np.zeros_like(h)
    for Sq, Sk in ops:
        for q in Sq:
            for k in Sk:
                f[q + k] += h[Sq[q] + Sk[k]]
    irr = sorted(bravais.irreducibles(nq))
    wedge = np.array([f[q] for q in irr])
    got = bravais.complete_k(wedge, nq)
    equal(got.shape, f.shape, 'shape of completed data')
    close(got, f, 'completed k dependence')
    ctx.outcome((nq, nk, f), nontrivial=nq > 1)

def hamiltonian(angle, bands):
    """Fully symmetric Hamiltonian with crossing bands."""

    # invariant polynomials: sums of cosines over stars of lattice vectors
    A = {60: 120, 90: 90, 120: 60}[angle]
    phi = math.radians(A)
    star = {}
    for x, y in itertools.product(range(-3, 4), repeat=2):
        l = round(x * x + y * y + 2 * x * y * math.cos(phi), 6)
        star.setdefault(l, []).append((x, y))
    shells = [star[l] for l in sorted(star)[1:4]]

    def s(n, k1, k2):
        return sum(math.cos(x * k1 + y * k2) for x, y in shells[n])

    def H(k1=0, k2=0):
        a, b, c = (s(n, k1, k2) for n in range(3))
        M = np.array([
            [a, 0.3 * b, 0.1j * c],
            [0.3 * b, -a + 0.4 * b, 0.2],
            [-0.1j * c, 0.2, 0.5 * c]], dtype=complex)
        return M[:bands, :bands]

    def diagonal(k1=0, k2=0):
        # exact crossings
        a, b, c = (s(n, k1, k2) for n in range(3))
        return np.diag([a, -0.7 * a + 0.2 * b, 0.9 * c])[:bands, :bands] * (
            1 + 0j)

    return H, diagonal

@check.family
def full(ctx, size, angle, bands):
    for H in hamiltonian(angle, bands):
        E = np.array([[np.linalg.eigvalsh(H(2 * math.pi * i / size,
            2 * math.pi * j / size)) for j in range(size)]
            for i in range(size)])

        irr = sorted(bravais.irreducibles(size, angle))

        for vectors in False, True:
            for order in False, True:
                for nosym in False, True:
                    f = (dispersion.dispersion_full_nosym if nosym
                        else dispersion.dispersion_full)
                    out = f(H, size, angle=angle, vectors=vectors, order=order)
                    v = out[0] if vectors or order else out
                    what = 'energies (%s)' % (('vectors ' * vectors
                        + 'order ' * order + 'nosym ' * nosym) or 'plain')

                    equal(v.shape, (size, size, bands), 'shape of ' + what)
                    close(np.sort(v, axis=-1), E, what)

                    if order:
                        o = out[-1]
                        equal(np.sort(o, axis=-1).tolist(), np.broadcast_to(
                            np.arange(bands), o.shape).tolist(),
                            'order is no permutation')
                        close(v, np.take_along_axis(E, o, axis=-1),
                            'order of ' + what)
                    else:
                        close(v, E, what)

                    if vectors:
                        V = out[1]
                        for i, j in (irr if not nosym else
                                itertools.product(range(size), repeat=2)):
                            h = H(2 * math.pi * i / size,
                                2 * math.pi * j / size)
                            close(h @ V[i, j], V[i, j] * v[i, j],
                                'eigenvectors (%s)' % what)
                            close(V[i, j].conj().T @ V[i, j], np.eye(bands),
                                'orthonormality')
                    ctx.outcome((size, angle, bands, vectors, order, nosym, v),
                        nontrivial=size > 1)

        mesh = dispersion.dispersion_full_nosym(H, (size, 2))
        close(mesh, [[np.linalg.eigvalsh(H(2 * math.pi * i / size, math.pi
            * j)) for j in range(2)] for i in range(size)], 'nonuniform mesh')

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    for angle in 60, 90, 120:
        for nk in range(1, 15 if not thorough else 31):
            yield 'orbits', dict(nk=nk, angle=angle)

        yield 'symmetries', dict(nk=1, angle=angle, values=[0, 1], first=[])
        for first in itertools.product((0, 1, 2), repeat=2):
            yield 'symmetries', dict(nk=2, angle=angle, values=[0, 1, 2],
                first=first)
        for first in itertools.product((0, 1), repeat=5):
            yield 'symmetries', dict(nk=3, angle=angle, values=[0, 1],
                first=first)
        for nk in (2, 3, 4, 5, 6) if not thorough else range(2, 11):
            yield 'symmetries_generic', dict(nk=nk, angle=angle, seed=1)

        for nk in range(1, 9 if not thorough else 13):
            yield 'complete', dict(nk=nk, angle=angle,
                limit=60 if not thorough else 600)

        for size in range(1, 9 if not thorough else 17):
            for bands in 1, 2, 3:
                yield 'full', dict(size=size, angle=angle, bands=bands)

    for nq in range(1, 5 if not thorough else 7):
        for nk in range(1, 7 if not thorough else 9):
            for cplx in False, True:
                yield 'complete_k', dict(nq=nq, nk=nk, cplx=cplx)

check.main()
