"""C08: models survive being written to and read from files."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais, elphmod.el, elphmod.elel, elphmod.elph, elphmod.ph

from mc import gen, ref
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0
misc = elphmod.misc

check = Check('C08', 'exploration',
    rule='all file formats and options on models with all numbers of orbitals, '
    'atoms and lattice vectors within bounds; oracle: the original model or '
    'an independent writer of the format; trivial: single matrix')

K = [(0.0, 0.0, 0.0), (0.3, -1.1, 0.7), (2.0, 0.4, -0.9)]

# --- Wannier90

def hrdat(name, R, data, ndegen, tb=False, tau=None):
    """Independent writer."""

    N = data.shape[1]
    with open(name, 'w') as f:
        f.write(' written on  1Jan2020 at 00:00:00\n')
        if tb:
            for i in range(3):
                f.write('  %.8f  %.8f  %.8f\n' % tuple(np.eye(3)[i]))
        f.write('%12d\n%12d\n' % (N, len(R)))
        for i in range(0, len(R), 15):
            f.write(''.join('%5d' % d for d in ndegen[i:i + 15]) + '\n')
        for r, t in zip(R, data):
            if tb:
                f.write('\n%5d%5d%5d\n' % tuple(r))
            for b in range(N):
                for a in range(N):
                    if not tb:
                        f.write('%5d%5d%5d' % tuple(r))
                    f.write('%5d%5d %19.12E %19.12E\n' % (a + 1, b + 1,
                        t[a, b].real, t[a, b].imag))
        if tb:
            for r in R:
                f.write('\n%5d%5d%5d\n' % tuple(r))
                for b in range(N):
                    for a in range(N):
                        f.write('%5d%5d' % (a + 1, b + 1)
                            + ' 0.1000000E+00' * 6 + '\n')

@check.family
def wannier(ctx, size, nmax, rydberg, hermitian, suffix):
    m = gen.el_model(elphmod, size=size, nmax=nmax, hermitian=hermitian,
        rydberg=rydberg, scale=1.0, seed=size)
    m.data = np.round(m.data, 3)
    R0, data0 = m.R.copy(), m.data.copy()
    m.to_hrdat('test')
    require(np.array_equal(m.R, R0) and np.array_equal(m.data, data0),
        'model modified')
    eV = m.data * (misc.Ry if rydberg else 1)

    for unit in False, True:
        n = elphmod.el.Model('test' + suffix, rydberg=unit)
        equal(n.size, size, 'number of orbitals')
        close(n.R, sorted(m.R.tolist()), 'lattice vectors')
        for r, t in zip(m.R, eV):
            close(n.t(*r) * (misc.Ry if unit else 1), t, 'hopping', tol=1e-6)
        for k in K:
            close(n.H(*k) * (misc.Ry if unit else 1), ref.fourier(m.R, eV, k),
                'Hamiltonian', tol=len(m.R) * 1e-6)

        # next generation is identical:
        n.to_hrdat('again')
        o = elphmod.el.Model('again', rydberg=unit)
        close(o.R, n.R, 'lattice vectors')
        close(o.data, n.data, 'hopping', tol=1.1e-6)

    R, data = elphmod.el.read_hrdat('test')
    close(data, [eV[np.argmax(np.all(m.R == r, axis=1))] for r in R],
        'hopping', tol=1e-6)
    ctx.outcome((size, nmax, n.data), size * len(m.R) > 1)

@check.family
def wannier_foreign(ctx, size, count, tb, divide, wsvec):
    R = gen.box((3, 2, 1))[::-1][:count]
    data = gen.cplx((count, size, size), 'foreign')
    ndegen = gen.rng('degen', count).randint(1, 7, size=count)
    name = 'mat_%s.dat' % ('tb' if tb else 'hr')
    hrdat(name, R, data, ndegen, tb)

    T = {}
    if wsvec:
        with open('mat_wsvec.dat', 'w') as f:
            f.write('## written on  1Jan2020\n')
            for n, r in enumerate(R):
                for a, b in itertools.product(range(size), repeat=2):
                    vecs = [(n * a - b, b % 2, 0), (1, -n, a + b), (0, 0, 3),
                        (-1, -1, 2)][:1 + (n + a + 2 * b) % 4]
                    f.write('%5d%5d%5d%5d%5d\n' % (*r, a + 1, b + 1))
                    f.write('%5d\n' % len(vecs))
                    for v in vecs:
                        f.write('%5d%5d%5d\n' % v)
                        if divide:
                            key = tuple(int(x) for x in np.add(r, v))
                            T.setdefault(key, np.zeros((size, size),
                                dtype=complex))
                            T[key][a, b] += data[n, a, b] / ndegen[n] / len(
                                vecs)
    if not T:
        for n, r in enumerate(R):
            T[tuple(int(x) for x in r)] = data[n] / (ndegen[n] if divide else 1)

    m = elphmod.el.Model('mat', divide_ndegen=divide)
    got = {tuple(int(x) for x in r): t for r, t in zip(m.R, m.data)}
    equal(len(got), len(m.R), 'distinct lattice vectors')
    equal(sorted(got), sorted(T), 'lattice vectors')
    for r in T:
        close(got[r], T[r], 'hopping for %s' % (r,))
    equal(m.size, size, 'number of orbitals')
    ctx.outcome((size, count, tb, divide, wsvec, m.data), count * size > 1)

@check.family
def write_hrdat(ctx, dim, size):
    R = np.array(list(itertools.product((-1, 0, 1), repeat=dim)))[::-1]
    H = gen.cplx((len(R), size, size), 'H')
    elphmod.el.write_hrdat('low', R, H, ndegen=list(range(1, len(R) + 1)))
    for divide in False, True:
        r, h = elphmod.el.read_hrdat('low', divide_ndegen=divide)
        order = sorted(range(len(R)), key=lambda i: R[i].tolist())
        close(r[:, :dim], R[order], 'lattice vectors')
        equal(r[:, dim:].any(), np.False_, 'remaining components')
        d = np.array([i + 1 for i in order] if divide else [1] * len(R))
        close(h, H[order] / d[:, None, None], 'hopping', tol=1e-6)
    ctx.outcome((dim, size, h))

@check.family
def respack(ctx, lat, N, size, given):
    """Hoppings and interactions from RESPACK."""

    a = gen.lattice(lat)
    r = gen.positions(a, size, 'respack')
    box = [range(-(n // 2), n - n // 2) if n % 2 else range(-(n // 2),
        n // 2 + 1) for n in N]
    R = np.array(list(itertools.product(*box)))
    t = gen.cplx((*N, size, size), 'respack')
    data = np.array([t[tuple(x % N)] for x in R])

    with open('dat.h_mat_r', 'w') as f:
        f.write('#\n#\n#\n')
        for x, y in zip(R, data):
            f.write('%5d%5d%5d\n' % tuple(x))
            for i, j in itertools.product(range(size), repeat=2):
                f.write('%5d%5d%20.10f%20.10f\n' % (i + 1, j + 1, y[i, j].real,
                    y[i, j].imag))
            f.write('\n')

    r1, d1 = misc.read_dat_mat('dat.h_mat_r')
    equal(r1.tolist(), R.tolist(), 'lattice vectors')
    close(d1, data, 'matrix elements')

    if given:
        m = elphmod.el.Model('dat.h_mat_r', N=N, a=a, r=r)
    else:
        m = elphmod.el.Model('dat.h_mat_r', a=a, r=r)
    want = elphmod.el.Model()
    elphmod.el.k2r(want, t, a, r, fft=False)
    for k in itertools.product(*[2 * np.pi * np.arange(n) / n for n in N]):
        close(m.H(*k), sum(t[i] * np.exp(1j * np.dot(k, i)) for i in
            itertools.product(*map(range, N))), 'Hamiltonian on mesh')
    for k in K:
        close(m.H(*k), want.H(*k), 'Hamiltonian')

    e = elphmod.elel.Model(Wmat='dat.h_mat_r')
    equal(e.R.tolist(), R.tolist(), 'lattice vectors')
    close(e.data, data, 'interaction')
    e.to_Wmat('dat.Wmat')
    e2 = elphmod.elel.Model(Wmat='dat.Wmat')
    equal(e2.R.tolist(), R.tolist(), 'lattice vectors')
    close(e2.data, data, 'interaction')
    equal(e2.size, size, 'number of orbitals')
    e3 = elphmod.elel.Model(Wmat='dat.Wmat', nq=N, a=a, r=r)
    for k in K:
        close(e3.W(*k), want.H(*k), 'interaction')
    ctx.outcome((lat, N, size, m.data), np.prod(N) > 1)

@check.family
def coulomb(ctx, no, nq):
    """Interaction in orbital and band representation from VASP."""

    U = gen.cplx((no,) * 4, 'U')
    with open('UIJKL', 'w') as f:
        f.write('# header\n\n')
        for i, j, k, l in itertools.product(range(no), repeat=4):
            f.write('%4d%4d%4d%4d%16.9f%16.9f\n' % (i + 1, j + 1, k + 1, l + 1,
                U[i, j, k, l].real, U[i, j, k, l].imag))
    close(elphmod.elel.read_local_Coulomb_tensor('UIJKL', no), U, 'tensor')
    close(elphmod.elel.read_local_Coulomb_tensor('UIJKL', no, dd=True),
        [[U[i, i, k, k] for k in range(no)] for i in range(no)],
        'density-density interaction')

    shape = tuple(nq)
    files = {}
    for name in 'u', 'v', 'w':
        files[name] = gen.cplx((*shape, no, no, no, no), name)
        with open(name, 'w') as f:
            f.write('# header\n')
            for q in itertools.product(*map(range, shape)):
                # also points outside first unit cell
                k = [x / n - (x > n // 2) for x, n in zip(q, shape)]
                for i, j, m, l in itertools.product(range(no), repeat=4):
                    z = files[name][q][i, j, m, l]
                    f.write('%14.9f%14.9f%14.9f%4d%4d%4d%4d%16.9f%16.9f\n'
                        % (*k, i + 1, j + 1, m + 1, l + 1, z.real, z.imag))
    close(elphmod.elel.read_orbital_Coulomb_interaction('u', nq, no),
        files['u'].swapaxes(-4, -3).swapaxes(-2, -1), 'interaction')
    dd = {x: np.einsum('xyziijj->xyzij', y) for x, y in files.items()}
    close(elphmod.elel.read_orbital_Coulomb_interaction('u', nq, no, dd=True),
        dd['u'], 'density-density interaction')
    m = elphmod.elel.Model('u', nq=nq, no=no)
    n = elphmod.elel.Model('u', 'v', 'w', nq=nq, no=no)
    for q in itertools.product(*map(range, shape)):
        k = [2 * np.pi * x / y for x, y in zip(q, shape)]
        close(m.W(*k), dd['u'][q], 'interaction on mesh')
        close(n.W(*k), (dd['u'] + dd['v'] - dd['w'])[q], 'interaction on mesh')
    ctx.outcome((no, nq, m.data), np.prod(nq) > 1)

@check.family
def band_coulomb(ctx, nQ, nk, binary):
    U = np.round(gen.cplx((nQ, nk, nk, nk, nk), 'band'), 9)
    for name in 'band', 'band.npy':
        elphmod.elel.write_band_Coulomb_interaction(name, U, binary=binary)
        for share in False, True:
            V = elphmod.elel.read_band_Coulomb_interaction(name, nQ, nk,
                binary=binary, share=share)
            close(V, U, 'interaction', tol=1e-9)
    ctx.outcome((nQ, nk, binary), nk > 1)

# --- Quantum ESPRESSO

def symbols(nat, kind):
    return dict(plain=['H', 'Ta', 'S', 'H'], same=['Ta'] * 4,
        label=['Fe1', 'Fe2', 'O', 'Fe1'], mixed=['S', 'H', 'S', 'Ta'],
        isotope=['H', 'H', 'D', 'H'])[kind][:nat]

def masses(nat, kind):
    if kind == 'same':
        return [33.0] * nat
    if kind == 'isotope':
        return [911.4, 1822.9, 1822.9, 911.4][:nat]
    m = dict(H=911.4, Ta=164000.25, S=29222.5, Fe1=50800.0, Fe2=50801.0,
        O=14500.0)
    return [m[s] for s in symbols(nat, kind)]

def crystal(lat, nat, kind, dielectric):
    at = gen.lattice(lat)
    tau = gen.positions(at, nat, 'flfrc')
    amass = np.array(masses(nat, kind))
    eps = Z = alph = None
    if dielectric:
        eps = gen.real((3, 3), 'eps') + 5 * np.eye(3)
        Z = gen.real((nat, 3, 3), 'Z')
        if dielectric == 'alpha':
            alph = 1.25
    return amass, at, tau, symbols(nat, kind), alph, eps, Z

def compare(got, want, what):
    names = ('masses', 'lattice vectors', 'positions', 'symbols',
        'Ewald parameter', 'dielectric tensor', 'effective charges')
    for g, w, name in zip(got, want, names):
        name = '%s (%s)' % (name, what)
        if w is None or isinstance(w, float):
            equal(g, w, name)
        elif name.startswith('symbols'):
            equal(list(g), list(w), name)
        else:
            close(g, w, name, tol=2e-6, rel=1e-8)

def write_xml(name, phid, amass, at, tau, symb, alph, eps, Z, ibrav=0,
        quirk=False, celldm=None):
    """Independent writer of XML format."""

    if celldm is None:
        celldm = [np.linalg.norm(at[0])]
    alat = celldm[0]
    types = list(dict.fromkeys(zip(symb, amass)))
    x = ['<?xml version="1.0" encoding="UTF-8"?>', '<Root>',
        '<GEOMETRY_INFO>',
        '<NUMBER_OF_TYPES>%d</NUMBER_OF_TYPES>' % len(types),
        '<NUMBER_OF_ATOMS>%d</NUMBER_OF_ATOMS>' % len(symb),
        '<BRAVAIS_LATTICE_INDEX>%d</BRAVAIS_LATTICE_INDEX>' % ibrav,
        '<SPIN_COMPONENTS>1</SPIN_COMPONENTS>',
        '<CELL_DIMENSIONS>%s</CELL_DIMENSIONS>' % ' '.join('%.15E' % c
            for c in (*celldm, 0, 0, 0, 0, 0)[:6]),
        '<AT>%s</AT>' % '\n'.join(' '.join('%.15E' % y for y in z)
            for z in at / alat)]
    for i, (s, m) in enumerate(types, 1):
        x.append('<TYPE_NAME.%d>%s</TYPE_NAME.%d>' % (i, s, i))
        x.append('<MASS.%d>%.15E</MASS.%d>' % (i, m / misc.uRy, i))
    for i, (s, m) in enumerate(zip(symb, amass), 1):
        x.append('<ATOM.%d SPECIES="%s" INDEX="%d" TAU="%s"/>' % (i, s,
            types.index((s, m)) + 1, ' '.join('%.15E' % y
                for y in tau[i - 1] / alat)))
    if isinstance(phid, tuple):
        x.append('<NUMBER_OF_Q>%d</NUMBER_OF_Q>' % len(phid[0]))
    x.append('</GEOMETRY_INFO>')
    x.append('<DIELECTRIC_PROPERTIES epsil="%s" zstar="%s">' % (('true',) * 2
        if eps is not None else ('false',) * 2))
    if eps is not None:
        x.append('<EPSILON>%s</EPSILON>' % '\n'.join('%.15E' % y
            for y in eps.ravel()))
        x.append('<ZSTAR>')
        for i, z in enumerate(Z, 1):
            x.append('<Z_AT_.%d>%s</Z_AT_.%d>' % (i, '\n'.join('%.15E' % y
                for y in z.ravel()), i))
        x.append('</ZSTAR>')
    x.append('</DIELECTRIC_PROPERTIES>')
    if isinstance(phid, tuple):
        for i, (q, D) in enumerate(zip(*phid), 1):
            x.append('<DYNAMICAL_MAT_.%d>' % i)
            x.append('<Q_POINT>%s</Q_POINT>' % ' '.join('%.15E' % y
                for y in q * alat / (2 * np.pi)))
            for n, m in itertools.product(range(len(symb)), repeat=2):
                b = D[3 * n:3 * n + 3, 3 * m:3 * m + 3]
                x.append('<PHI.%d.%d>%s</PHI.%d.%d>' % (n + 1, m + 1,
                    '\n'.join('%.15E %.15E' % (y.real, y.imag)
                        for y in b.T.ravel()), n + 1, m + 1))
            x.append('</DYNAMICAL_MAT_.%d>' % i)
    else:
        x.append('<INTERATOMIC_FORCE_CONSTANTS>')
        x.append('<MESH_NQ1_NQ2_NQ3>%d %d %d</MESH_NQ1_NQ2_NQ3>'
            % phid.shape[2:5])
        if alph is not None:
            x.append('<alpha_ewald>%.15E</alpha_ewald>' % alph)
        for idx in itertools.product(*map(range, phid.shape[:5])):
            tag = 's_s1_m1_m2_m3.%d.%d.%d.%d.%d' % tuple(i + 1 for i in idx)
            x.append('<%s><IFC>%s</IFC></%s>' % (tag, '\n'.join('%.15E' % y
                for y in phid[idx].T.ravel()), tag))
        x.append('</INTERATOMIC_FORCE_CONSTANTS>')
    x.append({False: '</Root>', 'case': '</root>', 'missing': ''}[quirk])
    with open(name, 'w') as f:
        f.write('\n'.join(x) + '\n')

@check.family
def flfrc(ctx, lat, nat, mesh, kind, dielectric, quirk):
    info = crystal(lat, nat, kind, dielectric)
    phid = gen.real((nat, nat, *mesh, 3, 3), 'phid')
    copy = phid.copy()

    elphmod.ph.write_flfrc('test.ifc', phid, *info)
    equal(copy.tolist(), phid.tolist(), 'input modified')
    got = elphmod.ph.read_flfrc('test.ifc')
    close(got[0], phid, 'force constants', tol=1e-11)
    compare(got[1:], info, 'text')

    write_xml('test.ifc.xml', phid, *info, quirk=quirk)
    got = elphmod.ph.read_flfrc('test.ifc.xml')
    close(got[0], phid, 'force constants', tol=1e-11)
    compare(got[1:], info, 'XML')
    ctx.outcome((lat, nat, mesh, kind, phid), np.prod(mesh) * nat > 1)

@check.family
def ibrav(ctx, number, celldm):
    """Lattice given by index rather than vectors."""

    at = elphmod.bravais.primitives(number, celldm=celldm, bohr=True)
    with open('bravais.ifc', 'w') as f:
        f.write('  1    1  %d' % number + ''.join(' %10.7f' % c
            for c in celldm) + '\n')
        f.write("           1  'Ta '    164000.0\n")
        f.write('    1    1    0.1000000    0.2000000    0.3000000\n F\n')
        f.write('   1   1   1\n')
        for i, j in itertools.product(range(3), repeat=2):
            f.write('%4d%4d   1   1\n   1   1   1  %.11E\n' % (i + 1, j + 1,
                i + 10 * j))
    got = elphmod.ph.read_flfrc('bravais.ifc')
    close(got[2], at, 'lattice vectors')
    close(got[3], np.array([[0.1, 0.2, 0.3]]) * celldm[0], 'positions')
    close(got[0][0, 0, 0, 0, 0], [[i + 10 * j for j in range(3)]
        for i in range(3)], 'force constants')
    equal(got[4], ['Ta'], 'symbols')

    q = gen.real((2, 3), 'q')
    D = np.round(gen.cplx((2, 3, 3), 'D'), 8)
    for free in False, True:
        with open('bravais.dyn', 'w') as f:
            f.write('Dynamical matrix file\n some title\n')
            f.write('  1    1  %d' % (0 if free else number)
                + ''.join(' %12.7f' % c for c in celldm) + '\n')
            if free:
                f.write('Basis vectors\n')
                for x in at / celldm[0]:
                    f.write('  %18.14f%18.14f%18.14f\n' % tuple(x))
            f.write("           1  'Ta '    164000.0\n")
            f.write('    1    1    0.1000000    0.2000000    0.3000000\n')
            for x, d in zip(q, D):
                f.write('\n     Dynamical  Matrix in cartesian axes\n\n')
                f.write('     q = ( %18.14f%18.14f%18.14f ) \n\n' % tuple(x))
                f.write('    1    1\n')
                for y in d:
                    f.write('  '.join('%12.8f%12.8f' % (z.real, z.imag)
                        for z in y) + '\n')
            f.write('\n     Diagonalizing the dynamical matrix\n\n')
        got = elphmod.ph.read_flfrc('bravais.dyn')
        close(got[0][0], q * 2 * np.pi / celldm[0], 'q points')
        close(got[0][1], D, 'dynamical matrices')
        close(got[2], at, 'lattice vectors')
        close(got[3], np.array([[0.1, 0.2, 0.3]]) * celldm[0], 'positions')

    info = np.array([164000.0]), at, np.array([[0.1, 0.2, 0.3]]) \
        * celldm[0], ['Ta'], None, None, None
    phid = gen.real((1, 1, 2, 1, 3, 3, 3), 'xml')
    for data in phid, (q * 2 * np.pi / celldm[0], D):
        for free in False, True:
            write_xml('bravais.xml', data, *info, ibrav=0 if free else number,
                celldm=celldm)
            got = elphmod.ph.read_flfrc('bravais.xml')
            if data is phid:
                close(got[0], phid, 'force constants')
            else:
                close(got[0][0], data[0], 'q points')
                close(got[0][1], D, 'dynamical matrices')
            compare(got[1:], info, 'XML')
    ctx.outcome((number, at))

@check.family
def dynmat(ctx, lat, nat, nq, kind, dielectric, quirk):
    info = crystal(lat, nat, kind, dielectric)
    info = (*info[:4], None, *info[5:])
    q = gen.real((nq, 3), 'q')
    D = np.round(gen.cplx((nq, 3 * nat, 3 * nat), 'D'), 8)
    elphmod.ph.write_flfrc('dyn', (q, D), *info)
    got = elphmod.ph.read_flfrc('dyn')
    close(got[0][0], q, 'q points', tol=2e-8)
    close(got[0][1], D, 'dynamical matrices', tol=1e-8)
    compare(got[1:], info, 'text')

    write_xml('dyn.xml', (q, D), *info, quirk=quirk)
    got = elphmod.ph.read_flfrc('dyn.xml')
    close(got[0][0], q, 'q points')
    close(got[0][1], D, 'dynamical matrices')
    compare(got[1:], info, 'XML')
    ctx.outcome((lat, nat, nq, kind, D), nq * nat > 1)

def harmonic(lat, nat, nq, seed='dyn'):
    """Force constants within Wigner-Seitz cell of mesh."""

    a = gen.lattice(lat)
    nmax = [(n - 1) // 2 for n in nq]
    R = gen.box(nmax)
    C = gen.real((len(R), 3 * nat, 3 * nat), seed) * 0.01
    C = gen.hermitian_R(R, C)
    C[np.where(np.all(R == 0, axis=1))[0][0]] += 0.2 * np.eye(3 * nat)
    return a, R, C

@check.family
def dynfiles(ctx, lat, nat, nq, xml, divide_mass, polar):
    """Model from dynamical matrices for all q points."""

    a, R, C = harmonic(lat, nat, nq)
    info = crystal(lat, nat, 'plain', 'yes' if polar else None)
    info = (*info[:4], None, *info[5:])
    b = 2 * np.pi * np.linalg.inv(a).T
    alat = np.linalg.norm(a[0])
    m = np.sqrt(np.repeat(info[0], 3))

    qs = list(itertools.product(*map(range, nq)))
    stars = []
    for q in qs:
        minus = tuple(-x % n for x, n in zip(q, nq))
        if (minus,) not in stars and (minus, q) not in stars:
            stars.append((q,) if minus == q else (q, minus))

    D = {q: ref.fourier(R, C, [2 * np.pi * x / n for x, n in zip(q, nq)])
        for q in qs}

    stem = 'dyn'
    # list of q points may or may not have extension
    with open(stem + '0' + '.xml' * (xml and nq[0] > 1), 'w') as f:
        f.write('%4d%4d%4d\n%4d\n' % (*nq, len(stars)))
        for star in stars:
            x = np.array([q / n for q, n in zip(star[0], nq)]) @ b
            f.write('%19.15f%19.15f%19.15f\n' % tuple(x * alat / (2 * np.pi)))
    for i, star in enumerate(stars, 1):
        # representatives outside first unit cell are fine
        # (long-range part only approximately periodic)
        pts = np.array([[q / n - (0 if polar else (j + i) % 2)
            for q, n in zip(p, nq)] for j, p in enumerate(star)]) @ b
        if xml:
            write_xml(stem + '%d.xml' % i, (pts, [D[p] for p in star]), *info)
        else:
            elphmod.ph.write_flfrc(stem + '%d' % i, (pts, [D[p]
                for p in star]), *info)

    kw = dict(divide_mass=divide_mass, lr=False)
    mod = elphmod.ph.Model(stem + ('.xml' if xml else ''), ifc='q2r.ifc', **kw)
    mm = np.outer(m, m) if divide_mass else 1
    tol = 3e-8
    for q in qs:
        close(mod.D(*[2 * np.pi * x / n for x, n in zip(q, nq)]) * mm, D[q],
            'dynamical matrix on mesh', tol=tol, rel=1e-7)
    if all(n % 2 for n in nq) and lat in ('cub', 'ort') and nat == 1:
        for k in K:
            close(mod.D(*k) * mm, ref.fourier(R, C, k),
                'interpolated dynamical matrix', tol=tol * len(qs), rel=1e-7)
    compare((mod.M, mod.a, mod.r, mod.atom_order), info[:4], 'model')

    again = elphmod.ph.Model('q2r.ifc', **kw)
    equal(tuple(again.nq), tuple(nq), 'mesh')
    for k in K:
        close(again.D(*k), mod.D(*k), 'dynamical matrix from force constants',
            tol=1e-9 * len(qs), rel=1e-7)

    if polar:
        # separating long-range part does not matter on mesh
        lr = elphmod.ph.Model(stem + ('.xml' if xml else ''),
            divide_mass=divide_mass, lr2d=False)
        require(lr.lr, 'long-range part missing')
        for q in qs:
            close(lr.D(*[2 * np.pi * x / n for x, n in zip(q, nq)]) * mm, D[q],
                'dynamical matrix on mesh', tol=tol, rel=1e-7)

        Q = gen.real((nat, 3, 3, 3), 'Q')
        Q = Q + Q.swapaxes(2, 3)
        elphmod.ph.write_quadrupole_fmt('quadrupole.fmt', Q)
        lr = elphmod.ph.Model(stem + ('.xml' if xml else ''),
            divide_mass=divide_mass, lr2d=False,
            quadrupole_fmt='quadrupole.fmt')
        close(lr.Q, Q, 'quadrupoles')
        for q in qs:
            close(lr.D(*[2 * np.pi * x / n for x, n in zip(q, nq)]) * mm, D[q],
                'dynamical matrix on mesh with quadrupoles', tol=tol, rel=1e-7)

    if not xml:
        elphmod.ph.fildyn_freq(stem)
        k, x, w = elphmod.el.read_bands(stem + '.freq')
        for i, star in enumerate(stars):
            w2 = np.linalg.eigvalsh(D[star[0]] / np.outer(m, m))
            close(w[:, i], np.sign(w2) * np.sqrt(abs(w2)) * misc.Ry / misc.cmm1,
                'frequencies', tol=1e-2)
    ctx.outcome((lat, nat, nq, mod.data), np.prod(nq) > 1)

@check.family
def to_flfrc(ctx, lat, nat, nq, divide_mass, polar, kind):
    a, R, C = harmonic(lat, nat, nq, 'to_flfrc')
    amass, at, tau, symb, alph, eps, Z = crystal(lat, nat, kind,
        'alpha' if polar else None)
    m = elphmod.ph.Model(amass=amass, at=at, tau=tau, atom_order=symb,
        epsil=eps, zeu=Z, alph=alph, divide_mass=divide_mass, lr2d=False)
    s = np.sqrt(np.repeat(amass, 3))
    m.R = R.copy()
    m.data = C / np.outer(s, s) if divide_mass else C.copy()
    m.nq = nq
    before = m.data.copy()
    m.to_flfrc('model.ifc')
    equal(m.data.tolist(), before.tolist(), 'model modified')

    for unit in False, True:
        n = elphmod.ph.Model('model.ifc', divide_mass=unit, lr2d=False)
        equal(n.lr, polar, 'long-range part')
        scale = np.outer(s, s) if unit else 1
        orig = np.outer(s, s) if divide_mass else 1
        for q in itertools.product(*map(range, nq)):
            k = [2 * np.pi * x / y for x, y in zip(q, nq)]
            close(n.D(*k) * scale, m.D(*k) * orig, 'dynamical matrix',
                tol=2e-5 if polar else 1e-9, rel=1e-5 if polar else 1e-8)
        compare((n.M, n.a, n.r, n.atom_order), (amass, at, tau, symb), 'model')

    # larger mesh does not change anything:
    big = tuple(x + 1 for x in nq)
    m.to_flfrc('model.ifc', *big)
    n = elphmod.ph.Model('model.ifc', divide_mass=divide_mass, lr2d=False)
    equal(tuple(n.nq), big, 'mesh')
    for q in itertools.product(*map(range, big)):
        k = [2 * np.pi * x / y for x, y in zip(q, big)]
        close(n.D(*k), m.D(*k), 'dynamical matrix',
            tol=2e-5 if polar else 1e-9, rel=1e-5 if polar else 1e-8)

    # smaller mesh folds force constants:
    for small in {(1, 1, 1), tuple((x + 1) // 2 for x in nq)}:
        m.to_flfrc('model.ifc', *small)
        n = elphmod.ph.Model('model.ifc', divide_mass=divide_mass, lr2d=False)
        equal(tuple(n.nq), small, 'mesh')
        for q in itertools.product(*map(range, small)):
            k = [2 * np.pi * x / y for x, y in zip(q, small)]
            close(n.D(*k), m.D(*k), 'dynamical matrix on small mesh',
                tol=2e-5 if polar else 1e-9, rel=1e-5 if polar else 1e-8)

    # dimensionality guessed from mesh:
    if polar:
        for mesh in (2, 2, 1), (1, 2, 1), (2, 2, 2), (1, 1, 1), (2, 1, 1):
            m.to_flfrc('guess.ifc', *mesh)
            n, o = (elphmod.ph.Model('guess.ifc', divide_mass=divide_mass,
                lr2d=guess) for guess in (None, mesh == (2, 2, 1)))
            for k in K[1:]:
                close(n.D(*k), o.D(*k), 'guess of dimensionality')
    ctx.outcome((lat, nat, nq, n.data), np.prod(nq) > 1)

@check.family
def to_pwi(ctx, lat, kinds, coords):
    """Crystal structure in PWscf input file: all sequences of species."""

    a = gen.lattice(lat)
    nat = len(kinds)
    names = ['Cc', 'Aa', 'Bb']
    symb = [names[k] for k in kinds]
    amass = [gen.MASSES[k] for k in kinds]
    tau = gen.positions(a, nat, 'to_pwi', lat)
    if coords:
        tau = np.round(tau).astype(int)
    m = elphmod.ph.Model(amass=amass, at=a, tau=tau, atom_order=symb)
    m.to_pwi('model.pwi', prefix='test', ecutwfc=40.0, k_points=[2, 1, 3, 0, 0,
        1], ktyp='automatic')
    pw = elphmod.bravais.read_pwi('model.pwi')
    close(elphmod.bravais.primitives(bohr=True, **pw), a, 'lattice', tol=1e-6)
    equal(pw['nat'], nat, 'number of atoms')
    equal(pw['ntyp'], len(set(kinds)), 'number of species')
    equal(list(pw['at']), symb, 'atoms')
    equal(sorted(pw['at_species']), sorted(set(symb)), 'species')
    mass = dict(zip(pw['at_species'], pw['mass']))
    for k in kinds:
        close(mass[names[k]] * misc.uRy / gen.MASSES[k], 1.0, 'mass', tol=1e-6)
    for X, pp in zip(pw['at_species'], pw['pp']):
        require(pp.startswith(X), 'pseudopotential of other species')
    equal(pw['coords'], 'crystal', 'kind of positions')
    close(pw['r'] @ a, tau, 'positions', tol=1e-6)
    equal((pw['prefix'], pw['ecutwfc'], list(pw['k_points'])),
        ('test', 40.0, [2, 1, 3, 0, 0, 1]), 'settings')
    ctx.outcome((lat, kinds, coords, pw['r']), nat > 1)

@check.family
def quadrupoles(ctx, nat):
    Q = gen.real((nat, 3, 3, 3), 'Q')
    Q = Q + Q.swapaxes(2, 3)
    elphmod.ph.write_quadrupole_fmt('quadrupole.fmt', Q)
    close(elphmod.ph.read_quadrupole_fmt('quadrupole.fmt'), Q, 'quadrupoles')
    ctx.outcome((nat, Q))

@check.family
def qpoints(ctx, nq):
    q = np.array(sorted(elphmod.bravais.irreducibles(nq))) / nq
    elphmod.ph.write_q('fildyn0', q, nq)
    n, p = elphmod.ph.read_q('fildyn0')
    equal(tuple(n), (nq, nq, 1), 'mesh')
    close(np.array(p)[:, :2], q, 'q points')
    close(np.array(p)[:, 2], np.zeros(len(q)), 'third component')
    ctx.outcome((nq, q), nq > 1)

# --- EPW

@check.family
def epw(ctx, size, nat, ng, nk, divide_mass, shared):
    e = gen.el_model(elphmod, size=size)
    p = gen.ph_model(elphmod, nat=nat)
    g = gen.elph_model(elphmod, e, p, ng=ng, nk=nk, divide_mass=divide_mass)
    before = g.data.copy()
    g.to_epmatwp('test')
    require(np.array_equal(before, g.data), 'model modified')
    for unit in False, True:
        h = elphmod.elph.Model('test.epmatwp', 'test.wigner', e, p,
            divide_mass=unit, shared_memory=shared)
        equal(h.Rg.tolist(), g.Rg.tolist(), 'lattice vectors')
        equal(h.Rk.tolist(), g.Rk.tolist(), 'lattice vectors')
        s = np.sqrt(np.repeat(p.M, 3))[:, None, None]
        scale = (s if divide_mass else 1) / (s if unit else 1)
        close(h.data, g.data * (np.ones((3 * nat, 1, 1))
            * scale)[:, None], 'coupling', rel=1e-12)
        for q, k in itertools.product(K, repeat=2):
            close(h.g(*q, *k), g.g(*q, *k) * scale, 'coupling')
    ctx.outcome((size, nat, ng, nk, g.data), g.data.size > 3)

@check.family
def wigner(ctx, size, nat, dims, dims2, form):
    """Wigner-Seitz data from EPW in all formats, degeneracies applied."""

    R = gen.rng('w', size)
    Rk = gen.box((1, 0, 1))[::-1][:5]
    Rg = gen.box((1, 1, 0))[:4]
    dk = R.randint(0, 4, size=(dims, dims, len(Rk)))
    first = dims if form == 'binary' and dims > 1 else 1
    dg = R.randint(0, 4, size=(first, dims, dims2, len(Rg)))
    Rq = gen.box((0, 1, 0))
    if form == 'text':
        with open('wigner.fmt', 'w') as f:
            f.write('%6d%6d%6d%6d%6d\n' % (len(Rk), len(Rq), len(Rg), dims,
                dims2))
            for i, r in enumerate(Rk):
                f.write('%6d%6d%6d%26.17E\n' % (*r, 0.5))
                for w in range(dims):
                    f.write(' '.join(map(str, dk[:, w, i])) + '\n')
            for i, r in enumerate(Rq):
                f.write('%6d%6d%6d%26.17E\n' % (*r, 0.5))
                for w in range(dims2):
                    f.write(' '.join(['2'] * dims2) + '\n')
            for i, r in enumerate(Rg):
                f.write('%6d%6d%6d%26.17E\n' % (*r, 0.5))
                for w in range(dims):
                    f.write(' '.join(map(str, dg[0, w, :, i])) + '\n')
        name = 'wigner.dat' # other file exists
        if os.path.exists('wigner.dat'):
            os.remove('wigner.dat')
    else:
        old = form == 'old'
        i4 = lambda *x: np.array(x, dtype=np.int32).ravel()
        parts = [] if old else [i4(dims, dims2)]
        parts += [i4(len(Rk)), i4(Rk), i4(dk)]
        if old:
            parts += [np.ones(len(Rk)), i4(len(Rq)), i4(Rq),
                i4(np.ones((dims2, dims2, len(Rq)))), np.ones(len(Rq))]
        parts += [i4(len(Rg)), i4(Rg)]
        if form == 'new':
            parts.append(i4(dg.transpose(2, 3, 0, 1)))
        else:
            parts.append(i4(dg))
        if old:
            parts.append(np.ones(len(Rg)))
        with open('wigner.dat', 'wb') as f:
            for part in parts:
                part.tofile(f)
        if os.path.exists('wigner.fmt'):
            os.remove('wigner.fmt')
        name = 'wigner.fmt'

    got = elphmod.bravais.read_wigner_file(name, old_ws=form == 'old', nat=nat)
    for g, w, what in zip(got, (Rk, dk, Rg, dg), ('electronic vectors',
            'electronic degeneracies', 'phononic vectors',
            'phononic degeneracies')):
        equal(np.shape(g), np.shape(w), 'shape of ' + what)
        equal(np.array(g).tolist(), w.tolist(), what)

    # EPW matrix elements with these degeneracies:
    data = gen.cplx((len(Rg), 3 * nat, len(Rk), size, size), 'epmatwp')
    data.swapaxes(-2, -1).tofile('epmatwp')
    e = elphmod.el.Model()
    e.size = size
    p = elphmod.ph.Model(amass=np.array(gen.MASSES[:nat]), at=np.eye(3),
        tau=np.zeros((nat, 3)), atom_order=gen.NAMES[:nat])
    for mass, divide in itertools.product((False, True), repeat=2):
        m = elphmod.elph.Model('epmatwp', name, e, p, old_ws=form == 'old',
            divide_mass=mass, divide_ndegen=divide)
        want = data.copy()
        for i, x, j, a, b in np.ndindex(want.shape):
            if divide:
                u = dk[b if dims > 1 else 0, a if dims > 1 else 0, j]
                v = dg[b if first > 1 else 0, a if dims > 1 else 0,
                    x // 3 if dims2 > 1 else 0, i]
                want[i, x, j, a, b] *= 1 / (u * v) if u and v else 0
            if mass:
                want[i, x, j, a, b] /= math.sqrt(p.M[x // 3])
        close(m.data, want, 'coupling')
        if not divide and form != 'binary' or divide:
            m.to_epmatwp('copy')
            n = elphmod.elph.Model('copy.epmatwp', 'copy.wigner', e, p,
                divide_mass=mass, divide_ndegen=True)
            close(n.data, want if divide else reference(want, dk, dg, dims,
                dims2), 'coupling after copy')
    ctx.outcome((size, nat, dims, dims2, form, m.data))

def reference(data, dk, dg, dims, dims2):
    want = data.copy()
    for i, x, j, a, b in np.ndindex(want.shape):
        u = dk[b if dims > 1 else 0, a if dims > 1 else 0, j]
        v = dg[0, a if dims > 1 else 0, x // 3 if dims2 > 1 else 0, i]
        want[i, x, j, a, b] *= 1 / (u * v) if u and v else 0
    return want

@check.family
def displacement(ctx, nQ, nmodes, nk, nbands, angle, angle0):
    """Coupling in displacement basis."""

    shape = (nQ, nmodes, nk, nk, nbands, nbands)
    g = gen.cplx(shape, 'xml')
    elphmod.elph.write_xml_files('elph.%d.%d.xml', g, angle=angle,
        angle0=angle0)
    kw = dict(angle=angle, angle0=angle0, old=True, status=False)
    h = elphmod.elph.read_xml_files('elph.%d.%d.xml', nQ, nmodes,
        range(nbands), nbands, nk, squeeze=False, **kw)
    close(h, g, 'coupling')
    for b in range(nbands):
        h = elphmod.elph.read_xml_files('elph.%d.%d.xml', nQ, [nmodes - 1], b,
            nbands, nk, **kw)
        close(h, g[:, -1:, ..., b, b], 'coupling of single band')
    if nbands > 1:
        h = elphmod.elph.read_xml_files('elph.%d.%d.xml', [nQ - 1], nmodes,
            [1, 0], nbands, nk, **kw)
        close(h, g[-1:, ..., [1, 0], :][..., [1, 0]], 'selected bands')
    ctx.outcome((shape, angle, angle0), g.size > 1)

@check.family
def arrays(ctx, shape, cplx):
    data = (gen.cplx if cplx else gen.real)(tuple(shape), 'array')
    elphmod.elph.write_data('array.dat', data)
    got = elphmod.elph.read_data('array.dat')
    equal(got.dtype.kind, 'c' if cplx else 'f', 'data type')
    close(got, data, 'array')
    ctx.outcome((shape, cplx), np.prod(shape) > 1)

@check.family
def bands(ctx, nb, nk, cols):
    k = np.round(gen.real((nk, 3), 'k'), 6)
    e = np.round(10 * gen.real((nb, nk), 'bands'), 3)
    elphmod.el.write_bands('bands.dat', k, e, cols=cols)
    K, x, E = elphmod.el.read_bands('bands.dat')
    close(K, k, 'k points')
    close(E, e, 'bands')
    close(x, [sum(np.linalg.norm(k[i + 1] - k[i]) for i in range(j))
        for j in range(nk)], 'path')
    elphmod.el.write_bands('bands.dat', k, e, fmt='%15.9f', cols=cols)
    close(elphmod.el.read_bands('bands.dat')[2], e, 'bands')
    with open('bands.dat') as f:
        count = [len(line.split()) for line in f][1:]
    equal(count, [3, *[min(cols, nb - n) for n in range(0, nb, cols)]] * nk,
        'numbers per line')

    if nb * nk == 1: # file with single row
        return ctx.outcome((nb, nk, cols), False)

    with open('bands.gnu', 'w') as f:
        for n in range(nb):
            for i in range(nk):
                f.write('%10.4f%10.4f\n' % (x[i], e[n, i]))
            f.write('\n')
    X, E = elphmod.el.read_bands_plot('bands.gnu', nb)
    close(X, x, 'path', tol=1e-4)
    close(E, e.T, 'bands', tol=1e-4)
    ctx.outcome((nb, nk, cols), nb * nk > 1)

@check.family
def interpolation(ctx, lat, nat, nq, divide_mass, polar, write0, clean):
    """Dynamical matrices handed over to external programs (stand-ins)."""

    import os.path, stat

    size = nq, nq, 1
    a, R, C = harmonic(lat, nat, size)
    info = crystal(lat, nat, 'plain', 'yes' if polar else None)
    info = (*info[:4], None, *info[5:])
    m = np.sqrt(np.repeat(info[0], 3))
    mm = np.outer(m, m)
    qs = list(itertools.product(range(nq), repeat=2))
    q = [tuple(2 * np.pi * x / nq for x in p) for p in qs]
    D = [ref.fourier(R, C, (*p, 0.0)) for p in q]

    # crystal structure from file with other dynamical matrix:
    elphmod.ph.write_flfrc('template', (np.zeros((1, 3)),
        [np.eye(3 * nat)]), *info)

    # prepared result of external program:
    rng = [range(-((n - 1) // 2), n // 2 + 1) for n in size]
    phid = np.zeros((nat, nat, *size, 3, 3))
    for c, r in zip(C, R):
        i, j, k = [x % n for x, n in zip(r, size)]
        c = c.reshape(nat, 3, nat, 3)
        phid[:, :, i, j, k] += c.transpose(0, 2, 1, 3).real
    elphmod.ph.write_flfrc('prepared.ifc', phid, *info)

    os.mkdir('bin')
    for name, text in (('q2qstar.x', 'echo "$1 $2" >> stars.log'),
            ('q2r.x', 'cat > q2r.log; cp prepared.ifc made.ifc')):
        name = os.path.join('bin', name)
        with open(name, 'w') as f:
            f.write('#!/bin/sh\n%s\n' % text)
        os.chmod(name, 0o755)

    if not write0:
        with open('out0', 'w') as f:
            f.write('%d %d 1\n%d\n' % (nq, nq, len(q)) + '0 0 0\n' * len(q))
        before = open('out0').read()

    given = [d / mm if divide_mass else d.copy() for d in D]
    model = elphmod.ph.interpolate_dynamical_matrices(given, q, nq,
        'template', 'out', 'made.ifc', write_fildyn0=write0,
        divide_mass=divide_mass, qe_prefix='./bin/', clean=clean)

    for d, g in zip(D, given):
        close(g, d / mm if divide_mass else d, 'given matrices', tol=0.0)

    plain = elphmod.ph.Model('prepared.ifc')
    for k in K:
        close(model.D(*k), plain.D(*k), 'interpolated dynamical matrix')
    with open('stars.log') as f:
        equal(sorted(f.read().split()), sorted(['out%d' % (i + 1)
            for i in range(len(q))] * 2), 'completed files')
    with open('q2r.log') as f:
        text = f.read().replace(' ', '')
    require("fildyn='out'" in text and "flfrc='made.ifc'" in text,
        'input of external program: %s', text)

    names = ['out%d' % i for i in range(len(q) + 1)] + ['made.ifc']
    for name in names:
        require(os.path.exists(name) != clean, 'file %s', name)

    if clean:
        ctx.outcome((lat, nat, nq, 'clean'))
        return

    if write0:
        number, points = elphmod.ph.read_q('out0')
        equal(tuple(number), size, 'mesh')
        equal(len(points), len(q), 'number of points')
    else:
        equal(open('out0').read(), before, 'given list of points')

    b = 2 * np.pi * np.linalg.inv(a).T
    for i, (p, d) in enumerate(zip(q, D)):
        (points, matrices), *got = elphmod.ph.read_flfrc('out%d' % (i + 1))
        equal(len(points), 1, 'number of points')
        close(points[0], np.array([*p, 0.0]) / (2 * np.pi) @ b, 'point',
            tol=1e-7)
        close(matrices[0], d, 'dynamical matrix', tol=3e-8)
        want = info if i == 0 else (*info[:4], None, None, None)
        compare(got, want, 'written file')

    # files form complete set:
    full = elphmod.ph.Model('out', lr=False)
    for p, d in zip(q, D):
        close(full.D(*p) * mm, d, 'dynamical matrix on mesh', tol=3e-8,
            rel=1e-7)
    ctx.outcome((lat, nat, nq, polar), nq > 1)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    for size in (1, 2, 3, 4):
        for nmax in (0, 0, 0), (1, 0, 0), (1, 1, 0), (2, 1, 1), (0, 0, 10):
            for rydberg, hermitian in itertools.product((False, True),
                    repeat=2):
                yield 'wannier', dict(size=size, nmax=nmax, rydberg=rydberg,
                    hermitian=hermitian, suffix='_hr.dat' if size % 2 else '')
    for size in (1, 2, 3):
        for count in (1, 2, 14, 15, 16, 30, 31):
            for tb, divide, wsvec in itertools.product((False, True),
                    repeat=3):
                if tb and wsvec:
                    continue
                yield 'wannier_foreign', dict(size=size, count=count, tb=tb,
                    divide=divide, wsvec=wsvec)
    for dim in 1, 2, 3:
        for size in 1, 2:
            yield 'write_hrdat', dict(dim=dim, size=size)

    for lat in 'cub', 'tri', 'hex':
        for N in itertools.product((1, 2, 3, 4), repeat=3):
            if np.prod(N) > (12 if not thorough else 36):
                continue
            for size in 1, 2:
                yield 'respack', dict(lat=lat, N=N, size=size, given=True)
                if all(n % 2 == 0 or n == 1 for n in N):
                    yield 'respack', dict(lat=lat, N=N, size=size,
                        given=False)

    for lat in 'cub', 'hex', 'tri':
        for nat, nq in (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 2):
            for divide_mass, polar, write0, clean in itertools.product((False,
                    True), repeat=4):
                if clean and not write0:
                    continue # would delete given file
                yield 'interpolation', dict(lat=lat, nat=nat, nq=nq,
                    divide_mass=divide_mass, polar=polar, write0=write0,
                    clean=clean)

    for no in 1, 2, 3:
        for nq in (1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (2, 1, 2):
            yield 'coulomb', dict(no=no, nq=nq)
    for nQ, nk in itertools.product((1, 2, 3), repeat=2):
        for binary in False, True:
            yield 'band_coulomb', dict(nQ=nQ, nk=nk, binary=binary)

    lats = [x for x in gen.LATTICES if x != 'skw']
    n = 0
    for lat in lats:
        for nat in 1, 2, 3, 4:
            for kind in 'plain', 'same', 'label', 'mixed', 'isotope':
                for dielectric in None, 'yes', 'alpha':
                    n += 1
                    yield 'flfrc', dict(lat=lat, nat=nat, mesh=[(1, 1, 1),
                        (2, 1, 1), (2, 3, 1), (1, 2, 2), (3, 1, 2)][n % 5],
                        kind=kind, dielectric=dielectric,
                        quirk=[False, 'case', 'missing'][n % 3])
                    yield 'dynmat', dict(lat=lat, nat=nat, nq=n % 4 + 1,
                        kind=kind, dielectric=dielectric and 'yes',
                        quirk=[False, 'case', 'missing'][n % 3])

    for number, celldm in [(1, [7.1, 0, 0, 0, 0, 0]), (2, [7.1] + [0] * 5),
            (3, [7.1] + [0] * 5), (4, [6.2, 0, 2.5, 0, 0, 0]),
            (6, [6.2, 0, 1.5, 0, 0, 0]), (8, [6.2, 1.2, 1.5, 0, 0, 0]),
            (12, [6.2, 1.2, 1.5, 0.1, 0, 0]),
            (14, [6.2, 1.2, 1.5, 0.1, 0.2, 0.15])]:
        yield 'ibrav', dict(number=number, celldm=celldm)

    meshes = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1), (3, 3, 1), (1, 3, 2),
        (3, 3, 3)]
    for lat in 'cub', 'ort', 'hex', 'tri':
        for nat in 1, 2:
            for nq in meshes:
                if np.prod(nq) * nat > 20 and not thorough:
                    continue
                for xml, divide_mass in itertools.product((False, True),
                        repeat=2):
                    for polar in False, True:
                        if polar and (np.prod(nq) > 4 or not divide_mass) \
                                and not thorough:
                            continue
                        yield 'dynfiles', dict(lat=lat, nat=nat, nq=nq,
                            xml=xml, divide_mass=divide_mass, polar=polar)
                for divide_mass, polar in itertools.product((False, True),
                        repeat=2):
                    if polar and np.prod(nq) > 4 and not thorough:
                        continue
                    yield 'to_flfrc', dict(lat=lat, nat=nat, nq=nq,
                        divide_mass=divide_mass, polar=polar,
                        kind=['plain', 'label', 'isotope'][sum(nq) % 3])

    for nat in 1, 2, 3:
        yield 'quadrupoles', dict(nat=nat)

    for lat in 'hex', 'tri', 'fcc':
        for nat in range(1, 5):
            for kinds in itertools.product(range(3), repeat=nat):
                yield 'to_pwi', dict(lat=lat, kinds=kinds, coords=sum(kinds)
                    % 2 == 1)
    for nq in range(1, 13):
        yield 'qpoints', dict(nq=nq)

    for size, nat in itertools.product((1, 2, 3), (1, 2)):
        for ng, nk in itertools.product([(0, 0, 0), (1, 0, 0), (0, 1, 1)],
                repeat=2):
            for divide_mass, shared in itertools.product((False, True),
                    repeat=2):
                yield 'epw', dict(size=size, nat=nat, ng=ng, nk=nk,
                    divide_mass=divide_mass, shared=shared)

        for form in 'text', 'binary', 'old', 'new':
            for big in False, True:
                for big2 in False, True:
                    dims = size if big else 1
                    dims2 = nat if big2 else 1
                    if form == 'old':
                        dims, dims2 = 1, nat
                    yield 'wigner', dict(size=size, nat=nat, dims=dims,
                        dims2=dims2, form=form)

    for nQ, nmodes in (1, 1), (2, 3), (3, 2):
        for nk in 1, 2, 3, 4:
            for nbands in 1, 2, 3:
                for angle in 60, 90, 120:
                    for angle0 in 0, 30:
                        yield 'displacement', dict(nQ=nQ, nmodes=nmodes,
                            nk=nk, nbands=nbands, angle=angle, angle0=angle0)

    for shape in (1,), (3,), (12,), (2, 3), (1, 11), (2, 3, 2), (2, 1, 2, 11):
        for cplx in False, True:
            yield 'arrays', dict(shape=shape, cplx=cplx)

    for nb in 1, 2, 9, 10, 11, 21:
        for nk in 1, 2, 5:
            for cols in 1, 6, 10:
                yield 'bands', dict(nb=nb, nk=nk, cols=cols)

check.main()
