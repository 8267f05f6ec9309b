"""C23: images show the data they are made of."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.plot as plot

from mc import gen
from mc.common import Check, require, close, equal, quiet

elphmod.misc.verbosity = 0

check = Check('C23', 'exploration',
    rule='all mesh sizes, angles, orientations, data types, ranges, and '
    'resolutions up to bounds, every pixel; oracles: own coordinates of pixels, '
    'distances to reciprocal lattice points, and interpolation within the '
    'enclosing triangle or rectangle; trivial: constant data')

def corners(x, y, angle):
    """Corners and weights of enclosing triangle or rectangle."""

    n, m = math.floor(x), math.floor(y)
    s, t = x - n, y - m

    if angle == 90:
        return [((n, m), (1 - s) * (1 - t)), ((n + 1, m), s * (1 - t)),
            ((n, m + 1), (1 - s) * t), ((n + 1, m + 1), s * t)]

    if angle == 60: # short diagonal connects (n + 1, m) and (n, m + 1)
        tri = (n + 1, m), (n, m + 1), ((n + 1, m + 1) if s + t > 1 else (n, m))
    else: # short diagonal connects (n, m) and (n + 1, m + 1)
        tri = (n, m), (n + 1, m + 1), ((n + 1, m) if s > t else (n, m + 1))

    A = np.array([[p[0] for p in tri], [p[1] for p in tri], [1, 1, 1]])
    return list(zip(tri, np.linalg.solve(A, [x, y, 1])))

def value(mesh, x, y, angle):
    n, m = mesh.shape
    return sum(w * mesh[i % n, j % m] for (i, j), w in corners(x, y, angle))

def vectors(angle, angle0=0.0):
    """Vectors of unit length and their duals (without 2 pi)."""

    a = np.array([[math.cos(math.radians(x)), math.sin(math.radians(x))]
        for x in (angle0, angle0 + angle)])
    return a, np.linalg.inv(a).T

def pixels(lower, upper, n):
    return [lower + (i + 0.5) * (upper - lower) / n for i in range(n)]

def data(kind, shape, *seed):
    if kind == 'cplx':
        return gen.cplx(shape, *seed)
    if kind == 'int':
        return np.round(gen.real(shape, *seed) * 9).astype(int)
    if kind == 'single':
        return gen.real(shape, *seed).astype(np.float32)
    return gen.real(shape, *seed)

TOL = dict(single=1e-5)

@check.family
def plane(ctx, nk, angle, kind, window, resolution, return_k):
    """Plot in Cartesian coordinates."""

    mesh = data(kind, (nk, nk), nk, angle)
    copy = mesh.copy()
    x1, x2, y1, y2 = window
    with quiet():
        out = plot.plot(mesh, kxmin=x1, kxmax=x2, kymin=y1, kymax=y2,
            resolution=resolution, angle=angle, return_k=return_k)
    nx, ny = round(resolution * (x2 - x1)), round(resolution * (y2 - y1))
    xs, ys = pixels(x1, x2, nx), pixels(y1, y2, ny)[::-1]
    if return_k:
        close(out[0], xs, 'horizontal axis')
        close(out[1], ys, 'vertical axis')
        out = out[2]
    equal(out.shape, (ny, nx), 'size of image')
    a, b = vectors(180 - angle)
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            k = a @ (x, y)
            close(out[i, j], value(mesh, k[0] * nk, k[1] * nk, angle),
                'pixel %d %d' % (i, j), tol=TOL.get(kind, 1e-9))
            ctx.add('pixels')
    require(np.array_equal(mesh, copy), 'data modified')
    ctx.outcome((nk, angle, kind, window, out), nk > 1)

@check.family
def zone(ctx, nk, ndata, angle, angle0, kind, points, even, outside):
    """Map onto Brillouin zone."""

    mesh = data(kind, (ndata, nk, nk), nk, angle)
    arg = mesh[0] if ndata == 1 else mesh
    out_ = np.nan if outside == 'nan' else outside
    with quiet():
        only = plot.toBZ(angle=angle, angle0=angle0, points=points, even=even,
            return_only_k=True)
        X, Y, kx, ky, image = plot.toBZ(arg, angle=angle, angle0=angle0,
            points=points, even=even, outside=out_, return_k=True)
        plain = plot.toBZ(arg, angle=angle, angle0=angle0, points=points,
            even=even, outside=out_)
    require(np.array_equal(plain, image, equal_nan=True), 'image')
    for got, want in zip(only, (X, Y, kx, ky)):
        close(got, want, 'coordinates')
    a, b = vectors(angle, angle0)

    # neighboring reciprocal lattice points and corners of zone
    G = [m @ b for m in itertools.product((-1, 0, 1), repeat=2) if any(m)]
    vertices = []
    for g, h in itertools.combinations(G, 2):
        if abs(np.linalg.det([g, h])) > 1e-9:
            v = np.linalg.solve([g, h], [g @ g / 2, h @ h / 2])
            if all(v @ f <= f @ f / 2 + 1e-9 for f in G):
                vertices.append(v)
    close(X, max(abs(v[0]) for v in vertices), 'horizontal range')
    close(Y, max(abs(v[1]) for v in vertices), 'vertical range')

    nx, ny = round(X * points), round(Y * points)
    if even:
        nx, ny = nx + nx % 2, ny + ny % 2
    equal(image.shape, (ny, nx), 'size of image')
    xs, ys = pixels(-X, X, nx), pixels(-Y, Y, ny)[::-1]
    close(kx, xs, 'horizontal axis')
    close(ky, ys, 'vertical axis')
    inside = 0
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            margin = max((g @ (x, y) - g @ g / 2) for g in G)
            if abs(margin) < 1e-9:
                continue
            if margin > 0:
                require(image[i, j] == out_ or np.isnan(image[i, j]) and
                    outside == 'nan', 'outside of zone')
                continue
            k = a @ (x, y) * nk
            sector = (math.degrees(math.atan2(y, x)) - angle0) % 360 * (
                ndata / 360)
            if ndata > 1 and (abs(sector - round(sector)) < 1e-9
                    or math.hypot(x, y) < 1e-9):
                continue # on edge of or at center of all sectors
            inside += 1
            close(image[i, j], value(mesh[int(sector) % ndata], *k,
                180 - angle), 'pixel %d %d' % (i, j), tol=1e-9)
            ctx.add('pixels')
    ctx.outcome((nk, ndata, angle, angle0, kind, points, even, image.real
        if outside != 'nan' else np.nan_to_num(image.real)), inside > 1)

@check.family
def zones(ctx, nq, nk, which, angle, kind, resolution, outside, outlines):
    """Brillouin zone made of Brillouin zones."""

    Q = [(i, j) for i, j in which]
    mesh = data(kind, (len(Q), nk, nk), nq, nk)
    out_ = np.nan if outside == 'nan' else outside
    q = 2 * np.pi * np.array(Q, dtype=float) / nq
    if nk > 1: # limited precision, e.g., from a file
        q = np.around(q, 9)
    copy = q.copy()
    with quiet():
        out = plot.double_plot(mesh, q, nq, qxmin=-0.7, qxmax=0.8, qymin=-0.6,
            qymax=0.8, resolution=resolution, angle=angle, outside=out_,
            outlines=outlines)
    require(np.array_equal(q, copy), 'q points modified')
    a, b = vectors(180 - angle)
    near = [m @ b for m in itertools.product((-1, 0, 1), repeat=2) if any(m)]
    if outlines:
        out, lines = out
        equal(len(lines), len(Q), 'number of outlines')
        for (i, j), line in zip(Q, lines):
            center = (i * b[0] + j * b[1]) / nq
            close(line[0], line[-1], 'closed outline')
            line = (line[:-1] - center) * nq
            equal(len(line), 4 if angle == 90 else 6, 'number of corners')
            # corners are equally far from three or more zone centers:
            for v in line:
                d = [v @ g - g @ g / 2 for g in near]
                require(max(d) < 1e-9, 'corner outside of zone')
                require(sum(abs(x) < 1e-9 for x in d) >= 2, 'no corner')
            require(len({tuple(np.round(v, 6)) for v in line}) == len(line),
                'corners are different')
    nx, ny = round(resolution * 1.5), round(resolution * 1.4)
    equal(out.shape, (ny, nx), 'size of image')
    xs, ys = pixels(-0.7, 0.8, nx), pixels(-0.6, 0.8, ny)[::-1]
    hits = 0
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            k = a @ (x, y) * nq
            d = sorted((np.linalg.norm((m - k) @ b), m) for m in
                itertools.product(range(math.floor(k[0]) - 1,
                math.floor(k[0]) + 3), range(math.floor(k[1]) - 1,
                math.floor(k[1]) + 3)))
            if d[1][0] - d[0][0] < 1e-9:
                continue
            ctx.add('pixels')
            if d[0][1] in Q:
                hits += 1
                want = value(mesh[Q.index(d[0][1])], *(k * nk), angle)
                close(out[i, j], want, 'pixel %d %d' % (i, j), tol=1e-9)
            else:
                require(out[i, j] == out_ or np.isnan(out[i, j]) and
                    outside == 'nan', 'outside')
    ctx.outcome((nq, nk, which, angle, kind, np.nan_to_num(out)), hits > 1)

@check.family
def bar(ctx, shape, left, bottom, width, height, limits):
    image = gen.real(shape, *shape)
    image[0, -1] = np.nan
    copy = image.copy()
    plot.colorbar(image, left=left, bottom=bottom, width=width, height=height,
        minimum=limits[0], maximum=limits[1])
    low = np.nanmin(copy) if limits[0] is None else limits[0]
    high = np.nanmax(copy) if limits[1] is None else limits[1]
    ny, nx = shape
    cols = range(round(nx * left), min(round(nx * (left + width)), nx - 1) + 1)
    bottom_row = min(round(ny * (1 - bottom)), ny - 1)
    top_row = round(ny * (1 - bottom - height))
    for y, x in itertools.product(range(ny), range(nx)):
        if x in cols and top_row <= y <= bottom_row:
            want = low + (high - low) * (bottom_row - y) / (bottom_row - top_row)
        else:
            want = copy[y, x]
        if np.isnan(want):
            require(np.isnan(image[y, x]), 'pixel')
        else:
            close(image[y, x], want, 'pixel %d %d' % (y, x))
        ctx.add('pixels')
    ctx.outcome((shape, left, bottom, width, height, limits,
        np.nan_to_num(image)), True)

@check.family
def tiles(ctx, n, columns, shape):
    images = [gen.real(shape, i) for i in range(n)]
    out = plot.arrange(images, columns)
    ny, nx = shape
    rows, cols = out.shape[0] // ny, out.shape[1] // nx
    equal(out.shape, (rows * ny, cols * nx), 'size')
    equal(rows * cols, n, 'number of tiles')
    # as requested or smallest possible larger number:
    least = math.isqrt(n) if columns is None else min(columns, n)
    equal(cols, min(c for c in range(least, n + 1) if n % c == 0), 'columns')
    for i in range(n):
        r, c = divmod(i, cols)
        require(np.array_equal(out[r * ny:(r + 1) * ny, c * nx:(c + 1) * nx],
            images[i]), 'tile %d' % i)
    ctx.outcome((n, columns, shape, rows, cols), n > 1)

@check.family
def straighten(ctx, shape, size, quad, angle):
    image = gen.real(shape, *shape)
    ny, nx = shape
    copy = image.copy()
    lt, rt, lb, rb = [np.array(p) for p in quad]
    out = plot.rectify(image, *size, *map(tuple, quad), angle=angle)
    require(np.array_equal(image, copy), 'image modified')
    my, mx = round(ny * size[1]), round(nx * size[0])
    equal(out.shape, (my, mx), 'size')
    for iy, ix in itertools.product(range(my), range(mx)):
        s, t = ix / mx, iy / my
        p = (1 - s) * (1 - t) * lt + s * (1 - t) * rt + (1 - s) * t * lb \
            + s * t * rb
        close(out[iy, ix], value(image, ny - p[1] * ny, p[0] * nx, angle),
            'pixel %d %d' % (iy, ix), tol=1e-9)
        ctx.add('pixels')
    ctx.outcome((shape, size, quad, out), True)

@check.family
def colors(ctx, shape, form, limits, positions, hole):
    """Colormap with absolute and relative positions."""

    class RGB:
        def __init__(self, *x):
            self.x = x
        def RGB(self):
            return self.x

    c = [(10.0, 250.0, 0.0), (200.0, 20.0, 30.0), (90.0, 120.0, 255.0)]
    def cmap(x):
        for n in range(len(cmap.x) - 1):
            if cmap.x[n] <= x <= cmap.x[n + 1]:
                w = (x - cmap.x[n]) / (cmap.x[n + 1] - cmap.x[n])
                return RGB(*[(1 - w) * p + w * q for p, q in zip(c[n],
                    c[n + 1])])
        return RGB(255.0, 255.0, 255.0)
    cmap.x = x0 = list(positions)

    for repeat in range(2): # e.g., two figures with one colormap
        image = gen.real(shape, repeat, *shape) * (1 + repeat)
        image[0, 0], image[-1, -1] = -1.1 - repeat, 1.1 + repeat
        if hole:
            image[0, -1] = np.nan
        lo, hi = limits
        arg = image.tolist() if form == 'list' else image.copy()
        got = plot.color(arg, cmap, minimum=lo, maximum=hi)
        if form != 'list':
            require(np.array_equal(arg, image, equal_nan=True), 'modified')
        lo = np.nanmin(image) if lo is None else lo
        hi = np.nanmax(image) if hi is None else hi
        x = [(float(p) - lo) / (hi - lo) if isinstance(p, str) else p
            for p in positions]
        equal(got.shape, shape + (3,) if isinstance(shape, tuple)
            else tuple(shape) + (3,), 'shape')
        for i, j in itertools.product(*map(range, shape)):
            y = (image[i, j] - lo) / (hi - lo)
            if np.isnan(y):
                want = 255.0, 255.0, 255.0
            else:
                y = min(max(y, 0.0), 1.0)
                want = [np.interp(y, x, [p[n] for p in c]) for n in range(3)]
            close(got[i, j], want, 'pixel %d %d of image %d' % (i, j, repeat),
                tol=1e-9)
            ctx.add('pixels')
        equal(list(cmap.x), list(positions), 'colormap')
        equal(x0, list(positions), 'positions of colormap')
    ctx.outcome((shape, form, limits, positions, got), True)

@check.family
def columns(ctx, points, distances, width, height, extra):
    """Equidistant columns."""

    shape = (3, points[-1] + 1) + tuple(extra)
    image = gen.real(shape, 'columns')
    copy = image.copy()
    out = plot.adjust_pixels(image, list(points), list(distances), width,
        height)
    require(np.array_equal(image, copy), 'image modified')
    H = 3 if height is None else height
    equal(out.shape, (H, width) + tuple(extra), 'shape')
    d = [(x - distances[0]) / (distances[-1] - distances[0]) * (width - 1)
        for x in distances]
    new = [round(x) for x in d]
    for n in range(1, len(points)):
        a, b = new[n - 1], new[n]
        for j in range(a, b + 1):
            if j == b and n < len(points) - 1:
                continue # belongs to next block
            p = points[n - 1] + (0 if b == a else
                (j - a) / (b - a) * (points[n] - points[n - 1]))
            j0 = min(int(p), shape[1] - 1)
            j1 = min(j0 + 1, shape[1] - 1)
            for i in range(H):
                q = i / max(H - 1, 1) * 2
                i0 = int(q)
                i1 = min(i0 + 1, 2)
                s, t = q - i0, p - j0
                want = ((1 - s) * (1 - t) * image[i0, j0]
                    + (1 - s) * t * image[i0, j1] + s * (1 - t) * image[i1, j0]
                    + s * t * image[i1, j1])
                close(out[i, j], want, 'pixel %d %d' % (i, j), tol=1e-9)
                ctx.add('pixels')
    ctx.outcome((points, distances, width, height, out), len(points) > 2)

@check.family
def band(ctx, nx, nc, squeeze, flat, center):
    """Outlines of fat bands."""

    x = np.cumsum(abs(gen.real(nx, 'x')) + 0.1)
    y = 0.7 if flat else gen.real(nx, 'y')
    w = abs(gen.real((nx, nc), 'w'))
    arg = w[:, 0] if squeeze else w
    copies = np.copy(x), np.copy(y), np.copy(arg)
    out = plot.compline(x, y, arg, center=center)
    for p, q in zip(copies, (x, y, arg)):
        require(np.array_equal(p, q), 'arguments modified')
    equal(out.shape, (nc, 2, 2 * nx + 1), 'shape')
    base = np.zeros(nx) + (y - w.sum(axis=1) / 2 if center else 0)
    for c in range(nc):
        X, Y = out[c]
        close((X[0], Y[0]), (X[-1], Y[-1]), 'closed')
        # outline consists of lower and upper edge
        want = {(round(p, 9), round(q, 9)) for p, q in
            [*zip(x, base), *zip(x, base + w[:, c])]}
        got = {(round(p, 9), round(q, 9)) for p, q in zip(X, Y)}
        equal(got, want, 'outline')
        area = abs(sum(X[i] * Y[i + 1] - X[i + 1] * Y[i]
            for i in range(2 * nx))) / 2
        close(area, sum((x[i + 1] - x[i]) * (w[i, c] + w[i + 1, c]) / 2
            for i in range(nx - 1)), 'area', tol=1e-9)
        # simple polygon: abscissa goes there and back
        turns = np.sign(np.diff(X))
        equal(sum(1 for i in range(len(turns) - 1) if
            turns[i] * turns[i + 1] < 0), 0, 'immediate reversal')
        base = base + w[:, c]
    ctx.outcome((nx, nc, squeeze, flat, center, out), nc > 1)

@check.cases
def enumerate_cases(tier):
    quick = tier == 'quick'
    windows = [(-1.0, 1.0, -1.0, 1.0), (0.0, 1.5, 0.0, 1.0),
        (-0.35, 0.5, -1.2, 0.1)]
    for nk in range(1, 5 if quick else 8):
        for angle in (60, 90, 120):
            for kind in ('real', 'cplx', 'int', 'single'):
                for window in windows:
                    for resolution in (4, 7) if quick else (4, 7, 20):
                        yield 'plane', dict(nk=nk, angle=angle, kind=kind,
                            window=window, resolution=resolution,
                            return_k=(nk + resolution) % 2 == 0)
    for nk in range(1, 4 if quick else 7):
        for ndata in (1, 2, 3, 6):
            for angle in (60, 90, 120):
                for angle0 in (0, 15, -30, 45, 90, 200):
                    for points in (9, 14) if quick else (9, 14, 40):
                        for n, (kind, outside) in enumerate([('real', 0.0),
                                ('cplx', -3.0), ('int', 'nan')]):
                            yield 'zone', dict(nk=nk, ndata=ndata, angle=angle,
                                angle0=angle0, kind=kind, points=points,
                                even=bool((n + nk) % 2), outside=outside)
    for nq in (1, 2, 3, 4):
        first = [(0, 0)]
        every = [(i - nq // 2, j - nq // 2) for i in range(nq + 1)
            for j in range(nq + 1)]
        for which in (first, every, every[::3]):
            for nk in (1, 2, 3) if quick else (1, 2, 3, 5):
                for angle in (60, 90, 120):
                    for kind, outside in (('real', 'nan'), ('cplx', -5.0),
                            ('int', 'nan')):
                        yield 'zones', dict(nq=nq, nk=nk, which=which,
                            angle=angle, kind=kind, resolution=9 if quick
                            else 21, outside=outside, outlines=nk != 2)
    for shape in ((5, 4), (10, 10), (31, 17), (40, 60)):
        for left in (0.0, 0.02, 0.5, 0.97):
            for bottom in (0.0, 0.02, 0.3):
                for width in (0.03, 0.5):
                    for height in (0.3, 0.7):
                        # scale of one pixel is undefined
                        if min(round(shape[0] * (1 - bottom)), shape[0] - 1) \
                                <= round(shape[0] * (1 - bottom - height)):
                            continue
                        for limits in ((None, None), (-2.0, None), (0.0, 1.5)):
                            yield 'bar', dict(shape=shape, left=left,
                                bottom=bottom, width=width, height=height,
                                limits=limits)
    for n in range(1, 14 if quick else 30):
        for cols in (None, *range(1, n + 2)):
            for shape in ((1, 1), (2, 3)):
                yield 'tiles', dict(n=n, columns=cols, shape=shape)
    quads = [((0, 1), (1, 1), (0, 0), (1, 0)),
        ((0.1, 0.9), (0.8, 0.95), (0.2, 0.15), (0.9, 0.1)),
        ((0.5, 0.5), (0.5, 1.0), (0.0, 0.5), (0.0, 1.0))]
    for shape in ((4, 6), (7, 5), (1, 3)):
        for size in ((1, 1), (0.5, 2), (1.5, 1)):
            for quad in quads:
                for angle in (90, 60):
                    yield 'straighten', dict(shape=shape, size=size,
                        quad=quad, angle=angle)
    for shape in ((1, 2), (3, 4), (5, 1)):
        for form in ('list', 'array'):
            for limits in ((None, None), (-0.4, None), (None, 0.3),
                    (-0.9, 0.5), (-4.0, 6.0), (0, 1)):
                for positions in ((0, 0.5, 1), (0, '0.1', 1), ('-0.2', '0.1',
                        '0.3'), ('-1', 0.6, 1)):
                    lo = limits[0] if limits[0] is not None else -1.1
                    hi = limits[1] if limits[1] is not None else 1.1
                    x = [(float(p) - l) / (h - l) if isinstance(p, str) else p
                        for l, h in ((lo, hi), (lo if limits[0] is not None
                        else -2.1, hi if limits[1] is not None else 2.1))
                        for p in positions]
                    if not (x[0] <= 0 and x[3] <= 0 and x[2] >= 1
                            and x[5] >= 1 and x[0] < x[1] < x[2]
                            and x[3] < x[4] < x[5]):
                        continue # color of points beyond scale undefined
                    for hole in (False, True):
                        if hole and shape == (5, 1):
                            continue
                        yield 'colors', dict(shape=shape, form=form,
                            limits=limits, positions=positions, hole=hole)
    for points in ((0, 5), (0, 2, 5), (0, 1, 4, 9), (0, 3, 3, 6), (0, 4, 8)):
        for distances in ((0.0, 0.3, 0.9, 1.7), (2.0, 2.01, 2.4, 9.0),
                (-1.0, -0.2, -0.2, 0.0)):
            for width in (2, 5, 11) if quick else (2, 3, 5, 7, 11, 30):
                for height in (None, 1, 3, 5):
                    for extra in ((), (2,)):
                        yield 'columns', dict(points=points,
                            distances=distances[:len(points)], width=width,
                            height=height, extra=extra)
    for nx in range(2, 7):
        for nc in (1, 2, 3, 4):
            for squeeze in (False, True) if nc == 1 else (False,):
                for flat in (False, True):
                    for center in (False, True):
                        yield 'band', dict(nx=nx, nc=nc, squeeze=squeeze,
                            flat=flat, center=center)

check.main()
