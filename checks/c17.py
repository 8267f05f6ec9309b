"""C17: two-dimensional tetrahedron methods."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
from fractions import Fraction
import numpy as np

import elphmod.dos as dos

from mc import gen
from mc.common import Check, Violation, require, close, equal

check = Check('C17', 'exploration',
    rule='all assignments of few energies (degenerate triangles included) to '
    'small meshes plus generic meshes, all energy intervals between corners; '
    'trivial: constant energies')

def triangles(N):
    for i in range(N):
        for j in range(N):
            for k in range(2):
                yield (i + k, j + k), (i + 1, j), (i, j + 1)

def corners(N, e):
    return [[e[p % N][q % N] for p, q in t] for t in triangles(N)]

def clip(e, E):
    """Barycentric polygon of part of triangle with energy below E."""

    P = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)]
    out = []
    for n in range(3):
        a, b = P[n], P[(n + 1) % 3]
        ea, eb = e[n], e[(n + 1) % 3]
        if ea <= E:
            out.append(a)
        if (ea <= E) != (eb <= E):
            t = (E - ea) / (eb - ea)
            out.append(tuple(x + t * (y - x) for x, y in zip(a, b)))
    return out

def below(e, f, E):
    """Integrate linear function over part of triangle with energy below E."""

    P = clip(e, E)
    total = 0.0
    for n in range(1, len(P) - 1):
        a, b, c = P[0], P[n], P[n + 1]
        # area in units of triangle
        area = abs((b[0] - a[0]) * (c[1] - a[1])
            - (c[0] - a[0]) * (b[1] - a[1]))
        total += area * sum(sum(x * y for x, y in zip(p, f))
            for p in (a, b, c)) / 3
    return total

def integrated(E, ec, fc):
    return sum(below(e, f, E) for e, f in zip(ec, fc)) / len(ec)

GAUSS = 0.5 - math.sqrt(1 / 12), 0.5 + math.sqrt(1 / 12)

def examine(ctx, e, f):
    """Compare spectral functions to exact number of states."""

    N = len(e)
    ec = corners(N, e)
    fc = corners(N, f)
    one = [(1.0, 1.0, 1.0)] * len(ec)
    levels = sorted(set(float(x) for row in e for x in row))

    e0, f0 = e.copy(), f.copy()
    D = dos.hexDOS(e)
    A = dos.hexa2F(e, f)

    total = total_f = 0.0
    flat = [x for x, y in zip(ec, fc) if x[0] == x[1] == x[2]]

    for a, b in zip(levels, levels[1:]):
        # piecewise linear or quadratic in between
        x = [a + (b - a) * g for g in GAUSS]
        d = D(np.array(x))
        s = A(np.array(x))

        w = 1e-9 * (b - a)
        want = (integrated(b - w, ec, one) - integrated(a + w, ec, one))
        close((b - a) * np.mean(d), want, 'states between %g and %g' % (a, b),
            tol=1e-6)
        wantf = (integrated(b - w, ec, fc) - integrated(a + w, ec, fc))
        close((b - a) * np.mean(s), wantf, 'coupling between %g and %g'
            % (a, b), tol=1e-6)
        total += want
        total_f += wantf

        # linearity
        close(D(a + (b - a) * 0.5), np.mean(d), 'density in the middle',
            tol=1e-9)

        # local value
        h = 1e-4 * (b - a)
        E = a + (b - a) * 0.3
        close(D(E), (integrated(E + h, ec, one) - integrated(E - h, ec, one))
            / (2 * h), 'density of states at %g' % E, tol=1e-7, rel=1e-6)
        close(A(E), (integrated(E + h, ec, fc) - integrated(E - h, ec, fc))
            / (2 * h), 'coupling at %g' % E, tol=1e-6, rel=1e-6)

        # energy window
        for lo, hi in ((a, b), (None, b), (a, None), (E, E)):
            close(dos.hexDOS(e, minimum=lo, maximum=hi)(E), D(E),
                'window', tol=1e-12)
            close(dos.hexa2F(e, f, minimum=lo, maximum=hi)(E), A(E),
                'window', tol=1e-12)

        # edges of energy window
        for x in a, b:
            for lo, hi in ((a, b), (x, x)):
                for f1, f0_ in ((dos.hexDOS(e, minimum=lo, maximum=hi), D),
                        (dos.hexa2F(e, f, minimum=lo, maximum=hi), A)):
                    y, z = float(f1(x)), float(f0_(x))
                    require(y == z or abs(y - z) < 1e-12, 'edge of window: '
                        '%g is not %g', y, z)

    close(total + len(flat) / len(ec), 1.0, 'normalization', tol=1e-6)

    # corners themselves

    for E in levels:
        if any(x[0] == E for x in flat):
            require(D(E) == np.inf, 'flat band at %g', E)
            require(A(E) == np.inf, 'flat band at %g', E)
            continue
        h = 1e-7
        close(D(E), (D(E - h) + D(E + h)) / 2, 'average of limits at %g' % E,
            tol=1e-5)
        close(A(E), (A(E - h) + A(E + h)) / 2, 'average of limits at %g' % E,
            tol=1e-5)

    for E in levels[0] - 0.5, levels[-1] + 0.5:
        equal(float(D(E)), 0.0, 'outside band')
        equal(float(A(E)), 0.0, 'outside band')

    equal(e.tolist(), e0.tolist(), 'energies modified')
    equal(f.tolist(), f0.tolist(), 'couplings modified')

    ctx.outcome((e, f), nontrivial=len(levels) > 1)

def symmetry(e, f, E):
    """Shift of mesh origin and exchange of axes do not matter."""

    want = float(dos.hexDOS(e)(E)), float(dos.hexa2F(e, f)(E))

    for s in (1, 0), (0, 1), (2, 1):
        r, q = np.roll(e, s, (0, 1)), np.roll(f, s, (0, 1))
        close((float(dos.hexDOS(r)(E)), float(dos.hexa2F(r, q)(E))), want,
            'mesh shifted by %s' % (s,), tol=1e-10)
    r, q = e.T, f.T
    close((float(dos.hexDOS(r)(E)), float(dos.hexa2F(r, q)(E))), want,
        'axes exchanged', tol=1e-10)

@check.family
def small(ctx, N, values, first):
    first = list(first)
    for rest in itertools.product(values, repeat=N * N - len(first)):
        e = np.array(first + list(rest), dtype=float).reshape((N, N))
        f = gen.real((N, N), 5) + 1.0
        examine(ctx, e, f)

@check.family
def generic(ctx, N, seed):
    e = gen.real((N, N), seed, 'e')
    f = gen.real((N, N), seed, 'f')
    examine(ctx, e, f)
    for E in -0.2, 0.1, 0.4:
        symmetry(e, f, E)

def crossings(x, y, f, z):
    """Exact crossing points of isolines and weights."""

    N = len(x)
    points = {}
    for t, a, b, c in zip(triangles(N), corners(N, x), corners(N, y),
            corners(N, f)):
        # x_0 + u dx_1 + v dx_2 = z, y_0 + u dy_1 + v dy_2 = z
        a, b, c = ([Fraction(float(i)) for i in l] for l in (a, b, c))
        z = Fraction(z)
        w = (a[1] - a[0]) * (b[2] - b[0]) - (a[2] - a[0]) * (b[1] - b[0])
        if not w:
            continue
        u = ((z - a[0]) * (b[2] - b[0]) - (a[2] - a[0]) * (z - b[0])) / w
        v = ((a[1] - a[0]) * (z - b[0]) - (z - a[0]) * (b[1] - b[0])) / w
        l = 1 - u - v, u, v
        if min(l) < 0:
            continue
        p = tuple(sum(l[n] * t[n][i] for n in range(3)) % N
            for i in range(2))
        points.setdefault(p, []).append(float(sum(m * n for m, n in zip(l, c))
            / abs(w)) / N ** 2)
    return {k: sum(v) / len(v) for k, v in points.items()}

def check_crossings(ctx, x, y, f, zs, roll=True):
    N = len(x)
    dd = dos.double_delta(x, y, f)
    for z in zs:
        want = crossings(x, y, np.ones((N, N)) if f is None else f, z)
        got = dd(z)

        what = 'crossings of %s and %s at %g' % (x.tolist(), y.tolist(), z)
        equal(len(got), len(want), 'number of ' + what)

        for p, w in want.items():
            near = [v for q, v in got.items() if max(abs((float(a) - b + N / 2)
                % N - N / 2) for a, b in zip(p, q)) < 1e-6]
            equal(len(near), 1, 'crossing at (%g, %g), ' % p + what)
            close(near[0], w, 'weight at (%g, %g), ' % p + what, tol=1e-9)

        close(sum(got.values()), sum(want.values()), 'integral, ' + what,
            tol=1e-9)

        ctx.outcome((x, y, z, sorted(want.values())), nontrivial=bool(want))

@check.family
def double_small(ctx, x, values, zs):
    N = len(x)
    x = np.array(x, dtype=float)
    for y in itertools.product(values, repeat=N * N):
        y = np.array(y, dtype=float).reshape((N, N))
        check_crossings(ctx, x, y, None, zs)

@check.family
def double_generic(ctx, N, seed):
    # numbers with exact binary representation
    x, y, f = (np.round(gen.real((N, N), seed, n) * 1024) / 1024
        for n in 'xyf')
    check_crossings(ctx, x, y, f, (-0.3, 0.0, 0.15, 0.4))
    # common zero at mesh point (crossing shared by six triangles)
    for i, j in itertools.product(range(N), repeat=2):
        X, Y = x.copy(), y.copy()
        X[i, j] = Y[i, j] = 0.25
        check_crossings(ctx, X, Y, f, (0.25,))
    # crossing on edge shared by two triangles
    for i, j in itertools.product(range(N), repeat=2):
        for u, v in (1, 0), (0, 1), (1, -1):
            X, Y = x.copy(), y.copy()
            for F in X, Y:
                F[(i + u) % N, (j + v) % N] = 0.5 - F[i, j]
            check_crossings(ctx, X, Y, f, (0.25,))
    # crossings anywhere on mesh lines (rounding errors on either side)
    x, y = (gen.real((N, N), seed, n) for n in 'xy')
    n = np.arange(N)
    for i in range(N):
        for line in (i, n), (n, i), (n, (i - n) % N):
            X = x.copy()
            X[line] = 0.25
            check_crossings(ctx, X, y, f, (0.25,))
            check_crossings(ctx, y, X, f, (0.25,))

a1, a2 = elphmod.bravais.translations(120)
b1, b2 = elphmod.bravais.reciprocals(a1, a2)
METRIC = np.array([b1, b2])

def length(e, E):
    N = len(e)
    total = 0.0
    for t, c in zip(triangles(N), corners(N, e)):
        points = []
        for n in range(3):
            m = (n + 1) % 3
            if (c[n] < E) != (c[m] < E):
                s = (E - c[n]) / (c[m] - c[n])
                points.append(np.array(t[n]) * (1 - s) + np.array(t[m]) * s)
        if points:
            total += np.linalg.norm(np.dot(points[0] - points[1], METRIC)) / N
    return total

def value(e, x, y):
    """Linear interpolation on triangles cut along secondary diagonal."""
    N = len(e)
    i, j = math.floor(x + 1e-12), math.floor(y + 1e-12)
    u, v = x - i, y - j
    g = lambda a, b: e[(i + a) % N][(j + b) % N]
    if u + v <= 1:
        return g(0, 0) * (1 - u - v) + g(1, 0) * u + g(0, 1) * v
    return g(1, 1) * (u + v - 1) + g(0, 1) * (1 - u) + g(1, 0) * (1 - v)

def examine_isoline(ctx, e, E, vertex):
    N = len(e)
    contours = dos.isoline(e)(E)
    total = 0.0
    what = 'isoline of %s at %g' % (e.tolist(), E)

    ends = []
    for c in contours:
        require(c.ndim == 2 and c.shape[1] == 2 and len(c) > 1, '%s', what)
        for x, y in c:
            close(value(e, N * x, N * y), E, 'energy on ' + what, tol=1e-9)
            require(max(abs(x - y), abs(2 * x + y), abs(x + 2 * y))
                < 1 + 1e-9, 'point outside zone, %s', what)
        steps = np.linalg.norm(np.dot(np.diff(c, axis=0), METRIC), axis=1)
        total += steps.sum()
        require(steps.max() < np.linalg.norm(METRIC[0]) * 1.01 / N,
            'contour not contiguous, %s', what)
        if not np.allclose(c[0], c[-1], atol=1e-12):
            ends.extend([c[0], c[-1]])

    if N % 3 == 0 and not vertex:
        close(total, length(e, E), 'length of ' + what, tol=1e-9)

        # open contours end at zone boundary

        for x, y in ends:
            close(max(abs(x - y), abs(2 * x + y), abs(x + 2 * y)), 1.0,
                'end of open contour, ' + what, tol=1e-9)

    ctx.outcome((e, E, total), nontrivial=total > 0)

@check.family
def isolines(ctx, N, values, first):
    first = list(first)
    for rest in itertools.product(values, repeat=N * N - len(first)):
        e = np.array(first + list(rest), dtype=float).reshape((N, N))
        for E in sorted(set(values)):
            examine_isoline(ctx, e, float(E), True)
        for E in sorted(set(values))[:-1]:
            examine_isoline(ctx, e, E + 0.375, False)

@check.family
def isolines_generic(ctx, N, seed):
    e = gen.real((N, N), seed, 'iso')
    for E in -0.45, -0.2, 0.0, 0.12, 0.3, 0.47:
        examine_isoline(ctx, e, E, False)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    yield 'small', dict(N=1, values=[0, 1], first=[])
    for first in itertools.product((0, 1, 2), repeat=2):
        yield 'small', dict(N=2, values=[0, 1, 2], first=first)
    for first in itertools.product((0, 1), repeat=5):
        yield 'small', dict(N=3, values=[0, 1], first=first)
    if thorough:
        for first in itertools.product((0, 1, 2), repeat=5):
            yield 'small', dict(N=3, values=[0, 1, 2], first=first)
        for first in itertools.product((0, 1, 2, 3), repeat=2):
            yield 'small', dict(N=2, values=[0, 1, 2, 3, 4], first=first)
    for N in (2, 3, 4, 5) if not thorough else (2, 3, 4, 5, 6, 7, 8):
        for seed in range(4):
            yield 'generic', dict(N=N, seed=seed)

    for x in itertools.product((0, 1, 2), repeat=4):
        yield 'double_small', dict(x=[x[:2], x[2:]], values=[0, 1, 2],
            zs=[0.5, 1.0] if not thorough else [0.0, 0.3, 0.5, 1.0, 1.7])
    for N in (2, 3, 4) if not thorough else (2, 3, 4, 5, 6):
        for seed in range(4):
            yield 'double_generic', dict(N=N, seed=seed)

    for first in itertools.product((0, 1), repeat=5):
        if first[0] == 0 or thorough:
            yield 'isolines', dict(N=3, values=[0, 1], first=first)
    for first in itertools.product((0, 1, 2), repeat=2):
        yield 'isolines', dict(N=2, values=[0, 1, 2], first=first)
    for N in (1, 2, 3, 4, 5, 6, 7, 9) if not thorough else range(1, 13):
        for seed in range(3):
            yield 'isolines_generic', dict(N=N, seed=seed)

check.main()
