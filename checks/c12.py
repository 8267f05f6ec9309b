"""C12: interpolation passes through the data and is periodic."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais as bravais
import elphmod.ph

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C12', 'exploration',
    rule='all mesh shapes, angles, data types, orders of axes and points on a '
    'grid of fractional indices (several cells); oracle: barycentric or '
    'bilinear interpolation within the enclosing triangle or rectangle, nearest '
    'images for periodic values; trivial: at the data points')

def corners(x, y, angle):
    """Corners and weights of enclosing triangle or rectangle."""

    n, m = math.floor(x), math.floor(y)
    s, t = x - n, y - m

    if angle == 90:
        return [((n, m), (1 - s) * (1 - t)), ((n + 1, m), s * (1 - t)),
            ((n, m + 1), (1 - s) * t), ((n + 1, m + 1), s * t)]

    if angle == 60: # diagonal connects (n + 1, m) and (n, m + 1)
        third = (n + 1, m + 1) if s + t > 1 else (n, m)
        tri = (n + 1, m), (n, m + 1), third
    else: # diagonal connects (n, m) and (n + 1, m + 1)
        third = (n + 1, m) if s > t else (n, m + 1)
        tri = (n, m), (n + 1, m + 1), third

    A = np.array([[p[0] for p in tri], [p[1] for p in tri], [1, 1, 1]])
    w = np.linalg.solve(A, [x, y, 1])
    return list(zip(tri, w))

def tightest(values, period):
    """All combinations of equivalent values with the smallest spread."""

    values = np.array(values, dtype=float)
    best, found = np.inf, []
    base = values % period

    for shift in itertools.product((0, 1, 2), repeat=len(values)):
        v = base + period * np.array(shift)
        d = np.std(v)
        if d < best - 1e-9:
            best, found = d, [v]
        elif d < best + 1e-9:
            found.append(v)
    return found

def modulo(a, b, period, what):
    d = (np.asarray(a) - np.asarray(b)) / period
    close(d, np.round(d), what, tol=1e-9)

@check.family
def stack(ctx, values, period):
    got = bravais.stack(*values, period=period)
    modulo(got, values, period, 'equivalent values')
    want = tightest(values, period)
    close(np.std(got), np.std(want[0]), 'spread of %s' % (got,))

    # array-valued points are independent:
    perms = list(itertools.permutations(values))[:6]
    points = [np.reshape([p[i] for p in perms], (len(perms), 1))
        for i in range(len(values))]
    got = bravais.stack(*points, period=period)
    equal(np.shape(got), (len(values), len(perms), 1), 'shape')
    for i, p in enumerate(perms):
        modulo(got[:, i, 0], p, period, 'equivalent values')
        close(np.std(got[:, i, 0]), np.std(want[0]), 'spread')
    ctx.outcome((values, period, got), len(set(values)) > 1)

@check.family
def plane(ctx, n, angle, kind, axes, grid):
    """Two-dimensional interpolation."""

    extra = 0 if max(axes) == 1 and kind != 'array' else 1
    shape = [0] * (2 + extra)
    shape[axes[0]], shape[axes[1]] = n
    for i in range(len(shape)):
        if i not in axes:
            shape[i] = 2
    shape = tuple(shape)
    data = (gen.cplx if kind == 'cplx' else gen.real)(shape, 'plane')
    if kind == 'int':
        data = np.round(data * 20).astype(int)
    copy = data.copy()
    f = bravais.linear_interpolation(data, angle=angle, axes=axes)
    ref = np.moveaxis(data, axes, (0, 1))

    def want(x, y):
        return sum(w * ref[i % n[0], j % n[1]]
            for (i, j), w in corners(x, y, angle))

    xs = [i / grid for i in range(-grid, (n[0] + 1) * grid + 1)]
    ys = [i / grid for i in range(-grid, (n[1] + 1) * grid + 1)]
    all_ = []
    for x, y in itertools.product(xs, ys):
        got = f(x, y)
        close(got, want(x, y), 'value at %g, %g' % (x, y), tol=1e-9)
        all_.append(got)
        if x % 1 == y % 1 == 0:
            close(got, ref[int(x) % n[0], int(y) % n[1]], 'data point')

    X, Y = np.meshgrid(xs, ys, indexing='ij')
    F = f(X, Y)
    equal(F.shape, X.shape + ref.shape[2:], 'shape')
    close(F.reshape((-1, *ref.shape[2:])), all_, 'values for arrays')
    require(np.array_equal(data, copy), 'data modified')
    ctx.outcome((n, angle, kind, axes, F), n != (1, 1))

@check.family
def line(ctx, n, kind, axis, grid):
    """One-dimensional interpolation."""

    shape = {None: (n,), 0: (n, 3), 1: (2, n), 2: (2, 3, n)}[axis]
    data = (gen.cplx if kind == 'cplx' else gen.real)(shape, 'line')
    f = bravais.linear_interpolation(data, axes=axis or 0)
    ref = np.moveaxis(data, axis or 0, 0)
    for i in range(-2 * grid, (n + 1) * grid + 1):
        x = i / grid
        a = math.floor(x)
        close(f(x), ref[a % n] * (a + 1 - x) + ref[(a + 1) % n] * (x - a),
            'value at %g' % x, tol=1e-9)
    ctx.outcome((n, kind, axis, data), n > 1)

@check.family
def periodic_values(ctx, n, angle, period, dim):
    """Values defined modulo a period are interpolated along shortest way."""

    shape = (n,) if dim == 1 else (n, n + 1)
    data = gen.rng('period', shape).randint(0, 997, size=shape) / 997.0 * period
    data += period * gen.rng('turns', shape).randint(-2, 3, size=shape)
    f = bravais.linear_interpolation(data, angle=angle, axes=range(dim) if
        dim > 1 else 0, period=period)
    z = bravais.linear_interpolation(3 * np.exp(2j * np.pi * data / period),
        angle=angle, axes=range(dim) if dim > 1 else 0, polar=True)
    r = bravais.linear_interpolation((2 + data) * np.exp(0j), angle=angle,
        axes=range(dim) if dim > 1 else 0, polar=True)

    for p in itertools.product(range(-3, 4 * n + 5), repeat=dim):
        x = tuple(i / 4 for i in p)
        if dim == 1:
            a = math.floor(x[0])
            cw = [((a,), a + 1 - x[0]), ((a + 1,), x[0] - a)]
        else:
            cw = corners(*x, angle)
        v = [data[tuple(i % m for i, m in zip(c, shape))] for c, w in cw]
        w = [w for c, w in cw]
        got = f(*x)
        options = [np.dot(o, w) for o in tightest(v, period)]
        d = [(got - o) / period for o in options]
        require(any(abs(y - round(y)) < 1e-9 for y in d), 'value at %s: got '
            '%s, expected %s modulo %s', x, got, options, period)
        got = z(*x)
        require(any(abs(got - 3 * np.exp(2j * np.pi * o / period)) < 1e-8
            for o in options), 'complex value at %s: got %s', x, got)
        if all(i % 4 == 0 for i in p):
            close(r(*x), 2 + v[[abs(y - 1) < 1e-9 for y in w].index(True)],
                'signed value at data point')
    ctx.outcome((n, angle, period, dim, data), n > 1)

@check.family
def resize_period(ctx, old, new, angle, periodic, period, kind):
    """Resized values defined modulo period follow the shortest way."""

    data = gen.rng('period', old).randint(0, 997, size=old) / 997.0 * period
    kw = dict(angle=angle, axes=range(len(old)))
    if not periodic:
        kw.update(periodic=False)
    if kind == 'period':
        got = bravais.resize(data, new, period=period, **kw)
    else:
        radius = gen.rng('radius', old).randint(1, 9, size=old)
        z = radius * np.exp(2j * np.pi * data / period)
        got = bravais.resize(z, new, polar=True, **kw)
    equal(got.shape, tuple(new), 'shape')

    for p in itertools.product(*map(range, new)):
        x = [i * o / n if periodic else i * (o - 1) / max(n - 1, 1)
            for i, o, n in zip(p, old, new)]
        x = [round(y) if abs(y - round(y)) < 1e-9 else y for y in x]
        if len(x) == 1:
            a = math.floor(x[0])
            cw = [((a,), a + 1 - x[0]), ((a + 1,), x[0] - a)]
        else:
            cw = corners(*x, angle)
        idx = [tuple(i % o for i, o in zip(c, old)) for c, w in cw]
        w = [w for c, w in cw]
        options = [np.dot(o, w)
            for o in tightest([data[i] for i in idx], period)]
        if kind == 'period':
            d = [(got[p] - o) / period for o in options]
            require(any(abs(y - round(y)) < 1e-9 for y in d), 'value at %s: '
                'got %s, expected %s modulo %s', p, got[p], options, period)
        else:
            r = sum(y * radius[i] for i, y in zip(idx, w))
            require(any(abs(got[p] - r * np.exp(2j * np.pi * o / period))
                < 1e-8 for o in options), 'complex value at %s: %s', p, got[p])
    ctx.outcome((old, new, angle, periodic, period, kind), old != new)

@check.family
def resize(ctx, old, new, angle, periodic, kind, axes, size):
    """Resized data are the interpolation on the new mesh."""

    ndim = max(axes) + 1 + (kind == 'array')
    shape = [2] * ndim
    for a, o in zip(axes, old):
        shape[a] = o
    shape = tuple(shape)
    data = (gen.cplx if kind == 'cplx' else gen.real)(shape, 'resize')
    if kind == 'int':
        data = np.round(data * 20).astype(int)

    kw = dict(angle=angle, axes=axes[0] if size else axes)
    if not periodic:
        kw.update(periodic=False)
    got = bravais.resize(data, new[0] if size else new, **kw)

    final = list(shape)
    for a, o in zip(axes, new):
        final[a] = o
    equal(got.shape, tuple(final), 'shape')

    ref = np.moveaxis(data, axes, range(len(axes)))
    out = np.moveaxis(got, axes, range(len(axes)))

    for p in itertools.product(*map(range, new)):
        x = [i * o / n if periodic else i * (o - 1) / max(n - 1, 1)
            for i, o, n in zip(p, old, new)]
        x = [round(y) if abs(y - round(y)) < 1e-9 else y for y in x]
        if len(x) == 1:
            a = math.floor(x[0])
            cw = [((a,), a + 1 - x[0]), ((a + 1,), x[0] - a)]
        else:
            cw = corners(*x, angle)
        close(out[p], sum(w * ref[tuple(i % o for i, o in zip(c, old))]
            for c, w in cw), 'value at %s' % (p,), tol=1e-9)
    ctx.outcome((old, new, angle, periodic, kind, axes, got),
        old != new)

@check.family
def Fourier(ctx, n, angle, sign, kind):
    """Fourier interpolation of band-limited and arbitrary data."""

    shape = (n, n, 2) if kind == 'array' else (n, n)
    data = (gen.cplx if kind == 'cplx' else gen.real)(shape, 'Fourier')
    copy = data.copy()
    f = bravais.Fourier_interpolation(data, angle=angle, sign=sign)
    for i, j in itertools.product(range(-1, n + 2), repeat=2):
        close(f(i, j), data[i % n, j % n], 'data point %d, %d' % (i, j),
            tol=1e-5)

    # parameters are a short-ranged model of the data:
    c = bravais.Fourier_interpolation(data, angle=angle, sign=sign,
        function=False)
    require(np.array_equal(data, copy), 'data modified')
    rot = {60: -1, 90: 0, 120: 1}[angle] # of reciprocal lattice
    length = lambda i, j: i * i + j * j + rot * i * j

    for (i, j) in c:
        best = min(length(i + n * x, j + n * y)
            for x, y in itertools.product((-2, -1, 0, 1, 2), repeat=2))
        equal(length(i, j), best, 'length of (%d, %d)' % (i, j))

    for x, y in itertools.product(range(-1, 2 * n + 2), repeat=2):
        x, y = x / 2, y / 2
        want = sum(v * np.exp(-sign * 2j * np.pi * (i * x + j * y) / n)
            for (i, j), v in c.items())
        close(f(x, y), want if kind == 'cplx' else np.real(want),
            'value at %g, %g' % (x, y), tol=1e-5)

    full = np.zeros(shape, dtype=complex)
    for i, j in itertools.product(range(n), repeat=2):
        full[i, j] = sum(data[k, l] * np.exp(sign * 2j * np.pi
            * (i * k + j * l) / n) for k, l in
            itertools.product(range(n), repeat=2)) / n ** 2
    folded = np.zeros(shape, dtype=complex)
    for (i, j), v in c.items():
        folded[i % n, j % n] += v
    close(folded, full, 'coefficients', tol=1e-5)
    for (i, j), v in c.items():
        images = [p for p in c if (p[0] - i) % n == (p[1] - j) % n == 0]
        close(v * len(images), full[i % n, j % n], 'equal weights', tol=1e-5)
    ctx.outcome((n, angle, sign, kind, data), n > 1)

    # data varying slowly enough are reproduced everywhere:
    if n > 2 and kind == 'real':
        terms = [(0, 0), (1, 0), (0, 1)] + [[(1, 1)], [(1, -1)], []][
            [60, 120, 90].index(angle)]
        terms = [t for t in terms if 2 * max(map(abs, t)) < n]
        a, b = gen.real((2, len(terms)), 'smooth')
        def smooth(x, y):
            return sum(u * np.cos(2 * np.pi * (i * x + j * y) / n) + v * np.sin(
                2 * np.pi * (i * x + j * y) / n)
                for (i, j), u, v in zip(terms, a, b))
        X, Y = np.meshgrid(range(n), range(n), indexing='ij')
        f = bravais.Fourier_interpolation(smooth(X, Y), angle=angle, sign=sign)
        X, Y = np.meshgrid(np.arange(2 * n) / 2, np.arange(3 * n) / 3)
        close(f(X, Y), smooth(X, Y), 'smooth function', tol=1e-5)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    for count in 1, 2, 3, 4:
        steps = 10 if count < 4 or thorough else 5
        for v in itertools.product(range(steps), repeat=count):
            if v != tuple(sorted(v)) and count > 3:
                continue
            if count == 3 and v[0] and not thorough:
                continue
            yield 'stack', dict(values=[x * 10 / steps - 3 for x in v],
                period=10)
    for v in (0.1, 6.2, 3.0), (7.0, -7.0), (0.5, 1.5, 2.5, 2.7):
        yield 'stack', dict(values=v, period=2 * np.pi)

    top = 5 if thorough else 4
    for n in itertools.product(range(1, top + 1), repeat=2):
        for angle in 60, 90, 120:
            for kind in 'real', 'cplx', 'int', 'array':
                yield 'plane', dict(n=n, angle=angle, kind=kind, axes=(0, 1),
                    grid=4)
            for axes in (1, 0), (0, 2), (2, 0), (1, 2), (2, 1):
                yield 'plane', dict(n=n, angle=angle, kind='real', axes=axes,
                    grid=2)
            yield 'plane', dict(n=n, angle=angle, kind='real', axes=(0, 1),
                grid=5)

    for n in range(1, 7):
        for kind in 'real', 'cplx':
            for axis in None, 0, 1, 2:
                yield 'line', dict(n=n, kind=kind, axis=axis, grid=4)

    for n in range(1, top + 1):
        for angle in 60, 90, 120:
            for period in 1.0, 2 * np.pi, 0.3:
                for dim in 1, 2:
                    yield 'periodic_values', dict(n=n, angle=angle,
                        period=period, dim=dim)

    sizes = [(1, 1), (1, 3), (2, 2), (3, 2), (4, 4), (2, 5)]
    for old, new in itertools.product(sizes, repeat=2):
        for angle in 60, 90, 120:
            for periodic in True, False:
                for kind in 'real', 'cplx', 'int', 'array':
                    yield 'resize', dict(old=old, new=new, angle=angle,
                        periodic=periodic, kind=kind, axes=(0, 1), size=False)
                for axes in (1, 0), (2, 0), (1, 2):
                    yield 'resize', dict(old=old, new=new, angle=angle,
                        periodic=periodic, kind='real', axes=axes, size=False)
    for old, new in [*itertools.product(sizes, repeat=2),
            *itertools.product([(1,), (2,), (3,), (5,)], repeat=2)]:
        for angle in (60, 90, 120) if len(old) > 1 else (60,):
            for periodic in True, False:
                for kind in 'period', 'polar':
                    for period in 1.0, 2 * np.pi:
                        yield 'resize_period', dict(old=old, new=new,
                            angle=angle, periodic=periodic, period=period,
                            kind=kind)
    for old, new in itertools.product(range(1, 8), repeat=2):
        for periodic in True, False:
            for axes in (0,), (1,):
                for kind in 'real', 'cplx', 'int':
                    yield 'resize', dict(old=(old,), new=(new,), angle=60,
                        periodic=periodic, kind=kind, axes=axes, size=True)

    for n in range(1, 7 if thorough else 6):
        for angle in 60, 90, 120:
            for sign in -1, 1:
                for kind in 'real', 'cplx', 'array':
                    yield 'Fourier', dict(n=n, angle=angle, sign=sign,
                        kind=kind)

check.main()
