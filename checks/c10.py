"""C10: Wigner-Seitz cells and Voronoi cells."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais as bravais

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C10', 'exploration',
    rule='all mesh points and their translates, mesh sizes, lattice angles and '
    'shifts on a grid; all lattice types, mesh shapes and numbers of basis '
    'atoms; oracle: search through a larger set of translates; trivial: the '
    'point is its only nearest image and in the first cell')

SIGN = {60: 1, 90: 0, 120: -1}

def nearest(k, nk, angle, dk, eps):
    points = [(k[0] + nk * i, k[1] + nk * j)
        for i in range(-5, 6) for j in range(-5, 6)]
    d = [(x - dk[0]) ** 2 + (y - dk[1]) ** 2 + SIGN[angle] * (x - dk[0])
        * (y - dk[1]) for x, y in points]
    m = min(d)
    return {p for p, q in zip(points, d) if q - m <= eps}

@check.family
def voronoi(ctx, nk, angle, dk):
    eps = 1e-9 if any(x % 0.25 for x in dk) else 0.0
    cell = []
    for k in itertools.product(range(nk), repeat=2):
        want = nearest(k, nk, angle, dk, eps)
        for i, j in (0, 0), (1, 0), (-2, 3), (0, -1):
            K = k[0] + i * nk, k[1] + j * nk
            got = bravais.to_Voronoi(*K, nk, angle, *dk, epsilon=eps)
            equal(sorted(got), sorted(want), 'nearest images of %s for shift '
                '%s' % (K, dk))
            ctx.outcome((nk, angle, dk, k, sorted(got)), want != {k})
        cell.extend((p, len(want)) for p in want)

    irvec, ndegen, wslen = bravais.wigner_2d(nk, angle, *dk, epsilon=eps)
    equal(list(zip(irvec, ndegen)), sorted(cell), 'cell')
    close(sum(1 / n for n in ndegen), nk * nk, 'number of points')

    a1, a2 = bravais.translations(angle)
    close(wslen, [np.linalg.norm(x * a1 + y * a2) for x, y in irvec],
        'lengths')

@check.family
def distances(ctx, angle):
    a1, a2 = bravais.translations(angle)
    for x, y in itertools.product(range(-6, 7), repeat=2):
        d = bravais.squared_distance(x, y, angle)
        require(isinstance(d, int), 'squared distance not exact')
        close(d, np.linalg.norm(x * a1 + y * a2) ** 2, 'squared distance')
        close(bravais.squared_distance(x / 3, y / 7, angle), np.linalg.norm(
            x / 3 * a1 + y / 7 * a2) ** 2, 'squared distance')
        ctx.outcome((angle, x, y, d), d)
    ks = np.arange(-4, 5)
    equal(bravais.squared_distance(ks, ks[:, np.newaxis], angle).tolist(),
        [[bravais.squared_distance(int(x), int(y), angle) for x in ks]
            for y in ks], 'array of squared distances')

@check.family
def wigner(ctx, lat, nr, tau, tau2, sgn):
    at = gen.lattice(lat)
    tau = np.dot(tau, at)
    other = None if tau2 is None else np.dot(tau2, at)
    t2 = tau if tau2 is None else other
    at0, tau0 = at.copy(), tau.copy()

    irvec, ndegen, wslen = bravais.wigner(*nr, at, tau, other, sgn=sgn)

    equal(at.tolist(), at0.tolist(), 'lattice vectors modified')
    equal(tau.tolist(), tau0.tolist(), 'positions modified')

    want = {}
    for m in itertools.product(*map(range, nr)):
        R = np.array([[M * n + x for M, n, x in zip(S, nr, m)]
            for S in itertools.product(range(-4, 5), repeat=3)])
        for i, j in itertools.product(range(len(tau)), range(len(t2))):
            l = np.linalg.norm(R @ at + t2[j] - tau[i], axis=1)
            near = R[l < l.min() + 1e-7]
            for r in near:
                want.setdefault(tuple(map(int, r)), {})[i, j] = (len(near),
                    l.min())

    got = [tuple(map(int, R)) for R in irvec]
    equal(len(got), len(set(got)), 'distinct lattice vectors')
    equal(sorted(got), sorted(want), 'lattice vectors of cell')

    for n, R in enumerate(got):
        for i, j in itertools.product(range(len(tau)), range(len(t2))):
            d, l = want[R].get((i, j), (0, 0.0))
            equal(int(ndegen[n, i, j]), d, 'degeneracy of %s' % (R,))
            close(wslen[n, i, j], l, 'length of %s' % (R,))

    ctx.outcome((lat, nr, sorted(got), ndegen), nontrivial=np.prod(nr) > 1)

POSITIONS = dict(
    none=[[0, 0, 0]],
    one=[[0.3, 0.15, 0.4]],
    two=[[0, 0, 0], [0.5, 0.5, 0.5]],
    general=[[0.1, 0.2, 0.15], [0.8, 0.55, 0.7], [0.45, 0.9, 0.3]],
    hexagon=[[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.25]],
    )

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    for angle in 60, 90, 120:
        yield 'distances', dict(angle=angle)

        for nk in range(1, 9 if not thorough else 14):
            m = 0.25 * nk
            shifts = [0.0, 1 / 3, -1 / 3, 0.25, -0.25, 0.5, -0.5, 0.125,
                -0.75, 0.9, 1.25, -1.5]
            shifts = [x for x in shifts if abs(x) <= m]
            for dk in itertools.product(shifts, repeat=2):
                yield 'voronoi', dict(nk=nk, angle=angle, dk=dk)

    meshes = list(itertools.product((1, 2, 3), repeat=3))
    for lat in gen.LATTICES:
        if lat == 'skw':
            continue # nearest images beyond considered supercells
        for nr in meshes:
            if not thorough and np.prod(nr) > 12:
                continue
            for name in POSITIONS:
                for sgn in 1, -1:
                    yield 'wigner', dict(lat=lat, nr=nr, tau=POSITIONS[name],
                        tau2=None, sgn=sgn)
            yield 'wigner', dict(lat=lat, nr=nr, tau=POSITIONS['one'],
                tau2=POSITIONS['general'], sgn=1)
            yield 'wigner', dict(lat=lat, nr=nr, tau=POSITIONS['hexagon'],
                tau2=POSITIONS['none'], sgn=-1)

check.main()
