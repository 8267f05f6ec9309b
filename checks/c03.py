"""C03: lattice algebra."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools
import numpy as np

import elphmod.bravais as bravais
import elphmod.misc as misc

from mc import gen, ref
from mc.common import Check, Violation, require, close, equal

check = Check('C03', 'exploration',
    rule='all integer supercell matrices with bounded entries, all lattice '
    'types and parameter combinations of a grid; an outcome is non-trivial '
    'if the supercell has more than one cell or the lattice is not the unit '
    'matrix; outcomes are told apart by a hash of the result')

def supercell_ok(ctx, rows):
    """Check one supercell definition."""

    M = [list(r) for r in rows]
    det = ref.det3(M)
    n = abs(det)

    N, NN, BB, cells = sc = bravais.supercell(*[tuple(r) for r in M])

    equal(int(N), n, 'number of cells of %s' % M)
    equal([[int(x) for x in r] for r in NN], M, 'spanning vectors')

    # N_i . B_j = n delta_ij
    for i in range(3):
        for j in range(3):
            equal(int(sum(int(a) * int(b) for a, b in zip(M[i], BB[j]))),
                n if i == j else 0, 'reciprocal supercell of %s' % M)

    cells = [tuple(int(x) for x in c) for c in cells]
    equal(len(cells), n, 'cells of %s' % M)

    adj = ref.inv3(M)

    def coordinates(R):
        """Crystal coordinates times |det|."""
        s = 1 if det > 0 else -1
        return [s * sum(R[i] * adj[i][j] for i in range(3))
            for j in range(3)]

    residues = {}

    for i, c in enumerate(cells):
        x = coordinates(c)
        require(all(0 <= y < n for y in x), 'cell %s outside %s', c, M)
        residues[tuple(x)] = i

    equal(len(residues), n, 'distinct cells of %s' % M)

    for R in RS:
        S, i = bravais.to_supercell(R, sc)

        x = coordinates(R)
        want = tuple(y // n for y in x), residues[tuple(y % n for y in x)]

        equal((tuple(int(y) for y in S), int(i)), want,
            'mapping of %s to %s' % (R, M))

        # index must be usable with list and result as key
        back = [sum(int(S[j]) * M[j][k] for j in range(3)) + cells[i][k]
            for k in range(3)]

        equal(tuple(back), tuple(R), 'way back for %s from %s' % (R, M))

    return cells

RS = [tuple(r) for r in itertools.product((-3, -1, 0, 1, 2), repeat=3)]

@check.family
def supercells(ctx, first, second, top, volumes=8):
    """All third rows for two given rows of the supercell matrix."""

    span = range(-top, top + 1)

    for third in itertools.product(span, repeat=3):
        M = [first, second, list(third)]

        n = abs(ref.det3(M))

        if not 0 < n <= volumes:
            continue

        cells = supercell_ok(ctx, M)
        ctx.add('supercells')
        ctx.outcome([M, cells], nontrivial=n > 1)

@check.family
def supercell_scalars(ctx, N):
    """Scalars stand for multiples of primitive vectors."""

    M = ref.matrixN(N)
    n, NN, BB, cells = bravais.supercell(*[tuple(x) if np.ndim(x) else x
        for x in N])
    equal([[int(x) for x in r] for r in NN], M, 'spanning vectors of %s' % N)
    equal(int(n), abs(ref.det3(M)), 'volume')
    supercell_ok(ctx, M)
    ctx.outcome([N, cells])

def metric(ibrav, a, b, c, cosbc, cosac, cosab):
    """Conventional cell and centering vectors as documented by QE."""

    def cell(A, B, C, al=0.0, be=0.0, ga=0.0):
        return np.array([
            [A * A, A * B * ga, A * C * be],
            [A * B * ga, B * B, B * C * al],
            [A * C * be, B * C * al, C * C]])

    h = 0.5

    if ibrav == 1:
        return cell(a, a, a), np.eye(3)
    if ibrav == 2:
        return cell(a, a, a), [[-h, 0, h], [0, h, h], [-h, h, 0]]
    if ibrav == 3:
        return cell(a, a, a), [[h, h, h], [-h, h, h], [-h, -h, h]]
    if ibrav == -3:
        return cell(a, a, a), [[-h, h, h], [h, -h, h], [h, h, -h]]
    if ibrav == 4:
        return cell(a, a, c, ga=-0.5), np.eye(3)
    if ibrav in (5, -5):
        return cell(a, a, a, cosab, cosab, cosab), np.eye(3)
    if ibrav == 6:
        return cell(a, a, c), np.eye(3)
    if ibrav == 7:
        return cell(a, a, c), [[h, -h, h], [h, h, h], [-h, -h, h]]
    if ibrav == 8:
        return cell(a, b, c), np.eye(3)
    if ibrav == 9:
        return cell(a, b, c), [[h, h, 0], [-h, h, 0], [0, 0, 1]]
    if ibrav == -9:
        return cell(a, b, c), [[h, -h, 0], [h, h, 0], [0, 0, 1]]
    if ibrav == 91:
        return cell(a, b, c), [[1, 0, 0], [0, h, -h], [0, h, h]]
    if ibrav == 10:
        return cell(a, b, c), [[h, 0, h], [h, h, 0], [0, h, h]]
    if ibrav == 11:
        return cell(a, b, c), [[h, h, h], [-h, h, h], [-h, -h, h]]
    if ibrav == 12:
        return cell(a, b, c, ga=cosab), np.eye(3)
    if ibrav == -12:
        return cell(a, b, c, be=cosac), np.eye(3)
    if ibrav == 13:
        return cell(a, b, c, ga=cosab), [[h, 0, -h], [0, 1, 0], [h, 0, h]]
    if ibrav == -13:
        return cell(a, b, c, be=cosac), [[h, h, 0], [-h, h, 0], [0, 0, 1]]
    if ibrav == 14:
        return cell(a, b, c, cosbc, cosac, cosab), np.eye(3)

# direction of the first conventional axis etc. (orientation in space):
ORIENT = {
    1: 'xyz', 2: 'xyz', 3: 'xyz', -3: 'xyz', 4: 'xz', 6: 'xyz', 7: 'xyz',
    8: 'xyz', 9: 'xyz', -9: 'xyz', 91: 'xyz', 10: 'xyz', 11: 'xyz',
    12: 'xz', -12: 'xy', 13: 'xz', -13: 'xy', 14: 'x',
    }

@check.family
def lattices(ctx, ibrav, a, b, c, cos, bohr):
    cosbc, cosac, cosab = cos
    G, C = metric(ibrav, a, b, c, cosbc, cosac, cosab)
    C = np.array(C, dtype=float)
    unit = misc.a0 if bohr else 1.0

    results = []

    for mode in 'abc', 'celldm':
        if mode == 'abc':
            P = bravais.primitives(ibrav=ibrav, a=a, b=b, c=c, cosbc=cosbc,
                cosac=cosac, cosab=cosab, bohr=bohr)
        else:
            celldm = [a / misc.a0, b / a, c / a, 0.0, 0.0, 0.0]
            if ibrav == 14:
                celldm[3:] = [cosbc, cosac, cosab]
            elif ibrav in (-12, -13):
                celldm[4] = cosac
            elif ibrav in (5, -5, 12, 13):
                celldm[3] = cosab
            # data read from file may be shared by repeated calls
            orig = list(celldm)
            P = bravais.primitives(ibrav=ibrav, celldm=list(celldm),
                bohr=bohr)

        P = np.array(P)
        equal(P.shape, (3, 3), 'shape')

        close(P @ P.T, C @ G @ C.T / unit ** 2, 'metric of ibrav = %d (%s)'
            % (ibrav, mode))

        # conventional axes along the documented Cartesian directions:
        conv = np.linalg.inv(C) @ P
        for axis, word in zip(range(3), 'xyz'):
            if word in ORIENT.get(ibrav, ''):
                v = conv[axis] / np.linalg.norm(conv[axis])
                close(v, np.eye(3)[axis], '%s axis of ibrav = %d'
                    % (word, ibrav))

        if ibrav == 5:
            s = P.sum(axis=0)
            close(s / np.linalg.norm(s), [0, 0, 1], 'threefold axis')
            close(P[1, 0], 0.0, 'mirror plane')
        if ibrav == -5:
            s = P.sum(axis=0)
            close(s / np.linalg.norm(s), np.ones(3) / 3 ** 0.5,
                'threefold axis')

        require(np.linalg.det(P) > 0 or np.linalg.det(C) < 0,
            'handedness of ibrav = %d', ibrav)

        V = abs(np.linalg.det(C)) * np.sqrt(np.linalg.det(G)) / unit ** 3
        close(bravais.volume(*P), V, 'volume of ibrav = %d' % ibrav)

        B = np.array(bravais.reciprocals(*P))
        close(B @ P.T, np.eye(3), 'reciprocal lattice of ibrav = %d' % ibrav)

        results.append(P)

    close(results[0], results[1], 'celldm versus a, b, c')

    ctx.outcome(results[0], nontrivial=ibrav != 1)

@check.family
def free_lattice(ctx, units, bohr):
    cell = [[1.0, 0.2, 0.1], [0.3, 1.1, 0.0], [0.0, -0.2, 2.3]]
    a = 3.1

    P = bravais.primitives(ibrav=0, a=a, r_cell=cell, cell_units=units,
        bohr=bohr)

    if 'alat' in units.lower():
        factor = a / (misc.a0 if bohr else 1.0)
    elif 'angstrom' in units.lower():
        factor = 1 / misc.a0 if bohr else 1.0
    else:
        factor = 1.0 if bohr else misc.a0

    close(P, np.array(cell) * factor, 'cell in units %s' % units)
    ctx.outcome(P)

@check.family
def planes(ctx, angle, angle0):
    """Two-dimensional lattice vectors."""

    for two in True, False:
        a1, a2 = bravais.translations(angle, angle0, two_dimensional=two)
        for v, phi in (a1, angle0), (a2, angle0 + angle):
            phi *= np.pi / 180
            want = [np.cos(phi), np.sin(phi)] + [0.0] * (not two)
            close(v, want, 'translation vector')

    a1, a2 = bravais.translations(angle, angle0)

    area = abs(np.sin(angle * np.pi / 180))
    close(bravais.volume(a1, a2), area, 'area')
    close(bravais.volume(np.array([2.5])), 2.5, 'length')

    if area > 1e-6:
        A = np.array([a1 * 1.7, a2 * 0.6])
        B = np.array(bravais.reciprocals(*A))
        close(A @ B.T, np.eye(2), 'reciprocal lattice')

    for phi in (0.0, 0.3, -1.7, np.pi):
        v = np.array([0.3, -1.2, 0.7])
        want = np.exp(1j * phi) * (v[0] + 1j * v[1])
        close(bravais.rotate(v[:2], phi), [want.real, want.imag], 'rotation')
        close(bravais.rotate(v, phi, two_dimensional=False),
            [want.real, want.imag, v[2]], 'rotation about z axis')

    ctx.outcome([a1, a2])

@check.family
def coordinates(ctx, lat):
    a = gen.lattice(lat)
    x = gen.real((7, 3), 'xyz', lat) * 3
    cart = bravais.crystal_to_cartesian(x, *a)
    close(cart, x @ a, 'Cartesian coordinates')
    close(bravais.cartesian_to_crystal(x, *a), x @ np.linalg.inv(a),
        'crystal coordinates')
    close(bravais.cartesian_to_crystal(cart, *a), x, 'way back')
    close(bravais.crystal_to_cartesian(x[:, :2], a[0, :2], a[1, :2]),
        x[:, :2] @ a[:2, :2], '2D Cartesian coordinates')

    b = np.array(bravais.reciprocals(*a))
    close(b @ a.T, np.eye(3), 'reciprocal lattice')
    close(bravais.volume(*a), abs(np.linalg.det(a)), 'volume')
    ctx.outcome(cart)

@check.family
def meshes(ctx, n):
    for flat in False, True:
        k = bravais.mesh(*n, flat=flat)
        equal(k.shape, (int(np.prod(n)), len(n)) if flat
            else (*n, len(n)), 'shape of mesh')
        require(k.flags.c_contiguous and k.flags.writeable
            and k.flags.owndata, 'mesh must be an ordinary array')
        k = k.reshape((-1, len(n)))
        for i, idx in enumerate(itertools.product(*map(range, n))):
            close(k[i], [2 * np.pi * m / d for m, d in zip(idx, n)],
                'mesh point %s of %s' % (idx, n))
    ctx.outcome(k, nontrivial=k.size > 3)

    if len(n) == 3:
        import io
        for weights in False, True:
            out = sys.stdout
            sys.stdout = buf = io.StringIO()
            try:
                bravais.kpoints(*n, weights=weights)
            finally:
                sys.stdout = out
            lines = buf.getvalue().split('\n')
            total = int(np.prod(n))
            equal(int(lines[0]), total, 'number of k points')
            data = np.array([list(map(float, line.split()))
                for line in lines[1:] if line.strip()])
            want = np.array(list(itertools.product(*map(range, n)))) / n
            if weights:
                want = np.hstack((want, np.full((total, 1), 1 / total)))
            close(data, want, 'printed k points', tol=1e-9)

@check.cases
def enumerate_cases(tier):
    top = 1
    for first in itertools.product(range(-top, top + 1), repeat=3):
        for second in itertools.product(range(-top, top + 1), repeat=3):
            if not any(np.cross(first, second)):
                continue
            yield 'supercells', dict(first=list(first), second=list(second),
                top=1)

    # larger cells in two dimensions and with one long vector:
    for a, b, c, d in itertools.product(range(-3, 4), repeat=4):
        if a * d - b * c:
            if tier == 'quick' and (abs(a) + abs(b) + abs(c) + abs(d)) % 3:
                continue
            yield 'supercell_scalars', dict(N=[[a, b, 0], [c, d, 0], 1])

    for n in itertools.product((1, 2, 3, -1, -2), repeat=3):
        yield 'supercell_scalars', dict(N=list(n))

    if tier != 'quick':
        for first in itertools.product(range(-2, 3), repeat=3):
            for second in itertools.product(range(-2, 3), repeat=3):
                if not any(np.cross(first, second)):
                    continue
                if max(map(abs, first + second)) < 2:
                    continue
                yield 'supercells', dict(first=list(first),
                    second=list(second), top=1, volumes=12)

    for ibrav in (1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12, -12,
            13, -13, 14):
        for a, b, c in ((3.0, 3.0, 3.0), (3.0, 4.1, 5.7), (6.2, 2.1, 0.9)):
            for cos in ((0.1, 0.2, 0.3), (-0.2, -0.15, -0.4),
                    (0.0, 0.0, 0.0), (0.35, -0.25, 0.15)):
                for bohr in False, True:
                    yield 'lattices', dict(ibrav=ibrav, a=a, b=b, c=c,
                        cos=list(cos), bohr=bohr)

    for units in ('alat', 'angstrom', 'bohr', 'Angstrom', '{bohr}',
            '(alat)', '{angstrom}'):
        for bohr in False, True:
            yield 'free_lattice', dict(units=units, bohr=bohr)

    for angle in (30, 45, 60, 90, 100, 120, 150, -60):
        for angle0 in (0, 30, -45, 180):
            yield 'planes', dict(angle=angle, angle0=angle0)

    for lat in gen.LATTICES:
        yield 'coordinates', dict(lat=lat)

    sizes = (1, 2, 3, 5)
    for d in 1, 2, 3:
        for n in itertools.product(sizes, repeat=d):
            yield 'meshes', dict(n=list(n))

check.main()
