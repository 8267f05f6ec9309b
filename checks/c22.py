"""C22: output files of electronic-structure calculations."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import contextlib, io, itertools, math, struct
import numpy as np

import elphmod.el as el
import elphmod.elel, elphmod.elph
import elphmod.bravais as b

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0
Ry, a0 = elphmod.misc.Ry, elphmod.misc.a0

check = Check('C22', 'exploration',
    rule='all combinations of numbers of k points, bands, orbitals, and atoms '
    'within bounds (including line breaks at all positions), all options, all '
    'subsets of orbital names; oracle: content of independently written files, '
    'explicit sums; trivial: single band and k point')

def write(name, text):
    with open(name, 'w') as f:
        f.write(text)

def columns(values, fmt, n):
    return ''.join(''.join(fmt % v for v in values[i:i + n]) + '\n'
        for i in range(0, len(values), n))

def rounded(x, digits):
    return np.round(x, digits) + 0.0

# --- output of pw.x

def pwo(nk, nb, smear, level, steps=1, weights=None):
    """Output of pw.x and its content."""

    k = rounded(gen.real((nk, 3), 'k', nk), 7)
    w = rounded(1 + gen.real((nk,), 'w', nk), 7) if weights is None \
        else weights
    e = rounded(np.sort(gen.real((nk, nb), 'e', nk, nb) * 20, axis=1), 4)
    eF = round(float(np.median(e)) + 0.0123, 4)
    Ne, E, width = 3.5 + nb, -123.45678901 - nk, 0.02
    text = '\n     Program PWSCF v.7.2 starts\n'
    text += '     number of electrons       = %12.2f\n' % Ne
    text += '     number of Kohn-Sham states= %12d\n' % nb
    text += '     number of k points= %5d' % nk
    if smear:
        text += '  %s smearing, width (Ry)= %8.4f' % (smear, width)
    text += '\n                       cart. coord. in units 2pi/alat\n'
    for n in range(nk):
        text += '        k(%5d) = (%12.7f%12.7f%12.7f), wk =%12.7f\n' % (
            n + 1, *k[n], w[n])
    for step in reversed(range(steps)):
        text += '\n     Self-consistent Calculation\n'
        text += '     total energy              = %16.8f Ry\n' % (E - 9)
        text += '\n     End of self-consistent calculation\n'
        for n in range(nk):
            text += '\n          k =%7.4f%7.4f%7.4f (  4159 PWs)' % tuple(
                abs(k[n])) + '   bands (ev):\n\n'
            text += columns(e[n] + step, ' %9.4f', 8)
        text += '\n'
        if level == 'fermi':
            text += '     the Fermi energy is %10.4f ev\n' % (eF + step)
        elif level == 'gap':
            text += ('     highest occupied, lowest unoccupied level (ev): '
                '%10.4f%10.4f\n' % (eF - 0.5 + step, eF + 0.5 + step))
        elif level == 'top':
            text += '     highest occupied level (ev): %10.4f\n' % (eF + step)
        text += '\n!    total energy              = %16.8f Ry\n' % (E + step)
        terms = dict(zip(('one-electron', 'hartree', 'xc', 'ewald'),
            (-1.5, 2.25, -3.125, 4.0)))
        text += '     The total energy is the sum of the following terms:\n'
        for name, v in terms.items():
            text += '     %s contribution%s =%17.8f Ry\n' % (name, ' ' * (
                12 - len(name)), v - step)
        text += '     smearing contrib. (-TS)   =%17.8f Ry\n' % (-0.125 - step)
    return text, k, w, e, eF, Ne, E, width, terms

@check.family
def pw_output(ctx, nk, nb, smear, level, steps):
    text, k, w, e, eF, Ne, E, width, terms = pwo(nk, nb, smear, level, steps)
    write('pw.out', text)
    energies, n, total = el.read_pwo('pw.out')
    equal(np.shape(energies), (nk, nb), 'shape of energies')
    # without gap or Fermi level, energies are absolute
    shift = eF if level in ('fermi', 'gap') else 0.0
    close(energies, e - shift, 'energies')
    close(n, Ne, 'number of electrons')
    close(total, E * Ry, 'total energy')
    got = el.read_Fermi_level('pw.out')
    if level in ('fermi', 'top'):
        close(got, eF, 'Fermi level')
    elif level is None:
        require(got is None, 'Fermi level')
    parts = el.read_energy_contributions_scf_out('pw.out')
    for name, v in terms.items():
        close(float(parts[name]), v, name)
    close(float(parts['total']), E, 'total energy')
    close(float(parts['smearing']), -0.125, 'smearing contribution')

    if smear and level == 'fermi':
        energies, kp, occ, kind, mu, kT = el.read_eps_nk_from_qe_pwo('pw.out')
        close(energies, e, 'energies')
        close(kp, np.column_stack([k, w]), 'k points')
        equal(kind, smear, 'smearing')
        close([mu, kT], [eF, width * Ry], 'chemical potential, width')
        f = elphmod.occupations.smearing(smear)
        want = np.array([[f((x - mu) / kT) for x in row] for row in e])
        close(occ, want, 'occupations')
        S = np.array([[f.entropy((x - mu) / kT) for x in row] for row in e])
        for r in range(nb + 1):
            for subset in itertools.islice(itertools.combinations(range(nb),
                    r), 12):
                choices = [list(subset), np.array(subset, dtype=int)]
                if r == nb:
                    choices.append(None)
                sel = list(subset)
                for choice in choices:
                    close(el.eband('pw.out', subset=choice), (w[:, None]
                        * want * e)[:, sel].sum() / Ry, 'band energy')
                    close(el.demet_from_qe_pwo('pw.out', subset=choice), -kT
                        * (w[:, None] * S)[:, sel].sum() / Ry, 'entropy term')
                ctx.traces += 1
    ctx.outcome((nk, nb, smear, level, steps), nk * nb > 1)

# --- bands.x, Wannier90, EPW

@check.family
def bands_output(ctx, nk, nb):
    points = rounded(np.cumsum(abs(gen.real((5,), 'points', nk))), 4)
    text = '     Program BANDS\n'
    for p in points:
        text += ('     high-symmetry point:  0.0000 0.0000 0.0000'
            '   x coordinate   %.4f\n' % p)
    write('bands.out', text + '\n  Plottable bands written\n')
    close(el.read_symmetry_points('bands.out'), points, 'symmetry points')

    e = rounded(gen.real((nb, nk), 'eig', nb, nk) * 30, 10)
    order = [(n, k) for k in range(nk) for n in range(nb)]
    for o in order, order[::-1]:
        write('x.eig', ''.join('%5d%5d%18.12f\n' % (n + 1, k + 1, e[n, k])
            for n, k in o))
        close(el.read_wannier90_eig_file('x', nb, nk), e, 'eigenvalues')

    if nk * nb > 1 and nk > 1:
        x = rounded(np.cumsum(abs(gen.real((nk,), 'x', nk))), 4)
        text = ''
        for n in range(nb):
            text += ''.join('%10.4f%10.4f\n' % (x[k], e[n, k])
                for k in range(nk)) + '\n'
        write('bands.gnu', text)
        got, bands = el.read_bands_plot('bands.gnu', nb)
        close(got, x, 'distance')
        close(bands, rounded(e.T, 4), 'bands', tol=2e-4)
    ctx.outcome((nk, nb), nk * nb > 1)

@check.family
def decay(ctx, ibrav, size):
    kw = dict(ibrav=ibrav, a=2.5, b=3.0, c=4.5, cosab=0.1, cosbc=0.05,
        cosac=-0.2)
    model = gen.el_model(elphmod, size=size, nmax=(1, 1, 1), rydberg=False)
    model.to_hrdat('x')
    R, H = el.decayH('x', **kw)
    new = el.Model('x', divide_ndegen=False)
    a = b.primitives(**kw)
    got = sorted(zip(np.round(R, 6), np.round(H, 6)))
    want = sorted(zip(np.round(np.linalg.norm(new.R @ a, axis=1), 6),
        np.round(abs(new.data).max(axis=(1, 2)) / Ry, 6)))
    close(got, want, 'decay of Hamiltonian', tol=1e-5)
    write('decay.H', '  ### comment with more words\n' + ''.join(
        '%15.10f %15.10f\n' % x for x in zip(R, H)) + '\n # end of the file\n')
    close(el.read_decayH('decay.H'), [R, H], 'decay of Hamiltonian', tol=1e-9)
    ctx.outcome((ibrav, size))

# --- projwfc.x

def atomic_proj(k, e, proj, mu, per_line, old=False):
    nk, nb = e.shape
    no = proj.shape[2]
    if old:
        text = '<?xml version="1.0"?>\n<Root>\n  <HEADER>\n'
        for key, v in [('NUMBER_OF_BANDS', nb), ('NUMBER_OF_K-POINTS', nk),
                ('NUMBER_OF_SPIN_COMPONENTS', 1), ('NUMBER_OF_ATOMIC_WFC', no)]:
            text += '    <%s type="integer" size="1">\n%12d\n    </%s>\n' % (
                key, v, key)
        text += '    <FERMI_ENERGY type="real" size="1">\n%.12E\n' % mu
        text += '    </FERMI_ENERGY>\n  </HEADER>\n'
        text += '  <K-POINTS type="real" size="%d" columns="3">\n' % (3 * nk)
        for v in k:
            text += ' %.10E %.10E %.10E\n' % tuple(v)
        text += '  </K-POINTS>\n  <EIGENVALUES>\n'
        for ik in range(nk):
            text += '    <K-POINT.%d>\n      <EIG type="real" size="%d">\n' % (
                ik + 1, nb)
            text += ''.join(' %.10E\n' % x for x in e[ik])
            text += '      </EIG>\n    </K-POINT.%d>\n' % (ik + 1)
        text += '  </EIGENVALUES>\n  <PROJECTIONS>\n'
        for ik in range(nk):
            text += '    <K-POINT.%d>\n' % (ik + 1)
            for o in range(no):
                text += '      <ATMWFC.%d type="complex" size="%d">\n' % (
                    o + 1, nb)
                text += ''.join('%.10E,%.10E\n' % (z.real, z.imag)
                    for z in proj[ik, :, o])
                text += '      </ATMWFC.%d>\n' % (o + 1)
            text += '    </K-POINT.%d>\n' % (ik + 1)
        return text + '  </PROJECTIONS>\n</Root>\n'
    text = '<?xml version="1.0" encoding="UTF-8"?>\n<PROJECTIONS>\n'
    text = '<PROJECTIONS>\n'
    text += ('  <HEADER NUMBER_OF_BANDS="%d" NUMBER_OF_K-POINTS="%d" '
        'NUMBER_OF_SPIN_COMPONENTS="1" NUMBER_OF_ATOMIC_WFC="%d" '
        'NUMBER_OF_ELECTRONS="8.0" FERMI_ENERGY="%.12E"/>\n' % (nb, nk, no,
        mu))
    text += '  <EIGENSTATES>\n'
    for ik in range(nk):
        text += '    <K-POINT Weight="1.0">\n      %.10E %.10E %.10E\n' % tuple(
            k[ik]) + '    </K-POINT>\n    <E>\n'
        text += columns(e[ik], ' %.10E', per_line)
        text += '    </E>\n    <PROJS>\n'
        for o in range(no):
            text += '      <ATOMIC_WFC index="%d" spin="1">\n' % (o + 1)
            text += ''.join('  %.10E %.10E\n' % (z.real, z.imag)
                for z in proj[ik, :, o])
            text += '      </ATOMIC_WFC>\n'
        text += '    </PROJS>\n'
    return text + '  </EIGENSTATES>\n</PROJECTIONS>\n'

@check.family
def projections(ctx, nk, nb, no, per_line):
    k = rounded(gen.real((nk, 3), 'k', nk), 8)
    e = rounded(np.sort(gen.real((nk, nb), 'e', nk, nb), axis=1), 8)
    proj = gen.cplx((nk, nb, no), 'proj') * 0.3
    proj = rounded(proj, 8)
    mu = 0.1234
    x = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(k, axis=0),
        axis=1))])
    write('p.xml', atomic_proj(k, e, proj, mu, per_line))
    for from_fermi, squared, other in itertools.product((False, True),
            repeat=3):
        if other and not squared:
            continue
        got = el.read_atomic_projections('p.xml', from_fermi=from_fermi,
            squared=squared, other=other)
        want = proj
        if squared:
            want = abs(proj) ** 2
            if other:
                want = np.concatenate([want, 1 - want.sum(axis=2)[..., None]],
                    axis=2)
        for g, w, what in zip(got, (x, k, e - mu * from_fermi, want),
                ('distance', 'k points', 'energies', 'projections')):
            equal(np.shape(g), np.shape(w), 'shape of %s' % what)
            close(g, w, what, tol=1e-9)
    write('old.xml', atomic_proj(k, e, proj, mu, per_line, old=True))
    for from_fermi in False, True:
        got = el.read_atomic_projections_old('old.xml', from_fermi=from_fermi)
        for g, w, what in zip(got, (x, k, e - mu * from_fermi,
                abs(proj) ** 2), ('distance', 'k points', 'energies',
                'projections')):
            equal(np.shape(g), np.shape(w), 'shape of %s' % what)
            close(g, w, what, tol=1e-9)
    ctx.outcome((nk, nb, no, per_line), nk * nb * no > 1)

@check.family
def disentangle(ctx, perms):
    """Bands of distinct character are reordered."""

    nk, nb = len(perms) + 1, 3
    U = np.linalg.qr(gen.cplx((nb, nb), 'U'))[0]
    k = rounded(gen.real((nk, 3), 'k', nk), 8)
    E = np.array([[-0.5 + 0.01 * i, 0.1 - 0.01 * i, 0.4 + 0.02 * i]
        for i in range(nk)])
    P = [list(range(nb))] + [list(p) for p in perms]
    e = np.array([E[i][P[i]] for i in range(nk)])
    proj = np.array([U[P[i]] for i in range(nk)])
    write('p.xml', atomic_proj(k, e, proj, 0.0, 4))
    write('old.xml', atomic_proj(k, e, proj, 0.0, 4, old=True))
    for got in (el.read_atomic_projections('p.xml', order=True, squared=False),
            el.read_atomic_projections('p.xml', order=True),
            el.read_atomic_projections_old('old.xml', order=True)):
        close(got[2], E, 'energies', tol=1e-8)
        want = np.array([U] * nk)
        close(got[3], want if np.iscomplexobj(got[3]) else abs(want) ** 2,
            'projections', tol=1e-8)
    ctx.outcome(perms, any(p != P[0] for p in P))

LABELS = ['s'], ['z', 'x', 'y'], ['z2', 'xz', 'yz', 'x2-y2', 'xy'], ['z3',
    'xz2', 'yz2', 'z(x2-y2)', 'xyz', 'x(x2-3y2)', 'y(3x2-y2)']

ATOMS = {'C': [(1, 0), (2, 1)], 'Ta': [(1, 0), (2, 0), (3, 1), (4, 2)],
    'H': [(1, 0)], 'Ce': [(1, 0), (2, 3)]}

@check.family
def orbitals(ctx, atoms, soc):
    """Names of orbitals."""

    text = '     Program PROJWFC\n\n     Problem Sizes\n\n'
    text += '     Atomic states used for projection\n'
    text += '     (read from pseudopotential files):\n\n'
    names, full, state = [], [], 0
    for i, X in enumerate(atoms):
        for n, l in ATOMS[X]:
            if soc:
                quantum = [' j=%3.1f m_j=%4.1f' % (j, m) for j in ([l - 0.5]
                    if l else []) + [l + 0.5] for m in np.arange(-j, j + 1)]
            else:
                quantum = [' m=%2d' % (m + 1) for m in range(2 * l + 1)]
            for m, q in enumerate(quantum):
                state += 1
                text += ('     state #%4d: atom %3d (%-3s), wfc %2d (l=%1d%s)\n'
                    % (state, i + 1, X, n, l, q))
                number = '' if atoms.count(X) == 1 else '%d' % (
                    atoms[:i].count(X) + 1)
                names.append('%s%s-%d%s' % (X, number, n, 'spdf'[l] + ('' if
                    soc or not l else LABELS[l][m])))
                full.append((X, number, '%d' % n, 'spdf'[l], 's' if not l
                    else LABELS[l][m % (2 * l + 1)]))
    write('projwfc.out', text + '\n k =   0.0 0.0 0.0\n')
    for other in False, True:
        got = el.read_projwfc_out('projwfc.out', other=other)
        if other:
            equal(got[-1], 'X-x', 'other orbital')
            got = got[:-1]
        if soc:
            # states that differ in magnetic quantum number are numbered
            import re
            got = [re.sub(r'^([A-Z][a-z]?)\d+-', r'\1-', x) for x in got]
            want = [re.sub(r'^([A-Z][a-z]?)\d+-', r'\1-', x) for x in names]
            equal(got, want, 'names of orbitals')
        else:
            equal(got, names, 'names of orbitals')
    # file ends after list
    write('projwfc.out', text)
    equal(len(el.read_projwfc_out('projwfc.out', other=False)), len(names),
        'number of orbitals')
    if soc:
        return ctx.outcome((atoms, soc))

    # sums of projections
    proj = abs(gen.real((2, 3, len(names) + 1), 'proj', len(names)))
    proj /= proj.sum(axis=2)[..., None]
    elements = sorted(set(atoms))

    def sel(f):
        return [i for i, o in enumerate(full) if f(*o)]

    groups = {'x': [len(names)], 'X': [len(names)], 'X-x': [len(names)]}
    for X in elements:
        groups[X] = sel(lambda Y, a, n, l, m: X == Y)
        groups[X + '1'] = sel(lambda Y, a, n, l, m: X == Y and a == '1')
        for l_ in 'spdf':
            groups['%s-%s' % (X, l_)] = sel(lambda Y, a, n, l, m: X == Y
                and l == l_)
            groups[l_] = sel(lambda Y, a, n, l, m: l == l_)
            groups['2' + l_] = sel(lambda Y, a, n, l, m: l == l_ and n == '2')
            groups['-2' + l_] = groups['2' + l_]
        groups['%s-d{z2, x2-y2, xy}' % X] = sel(lambda Y, a, n, l, m: X == Y
            and l == 'd' and m in ('z2', 'x2-y2', 'xy'))
        groups['%s-{s, p{x,y}}' % X] = sel(lambda Y, a, n, l, m: X == Y and (
            l == 's' or l == 'p' and m in 'xy'))
        groups['%s2-pz, %s-s' % (X, X)] = sel(lambda Y, a, n, l, m: X == Y and (
            l == 's' or a == '2' and l == 'p' and m == 'z'))
    groups['{%s}-p' % ','.join(elements)] = sel(lambda Y, a, n, l, m: l == 'p')
    groups[', '.join(elements)] = list(range(len(names)))
    given = names + ['X-x']
    for key, idx in groups.items():
        with contextlib.redirect_stdout(io.StringIO()) as out:
            got = el.proj_sum(proj, given, key)
        close(got, proj[..., sorted(idx)].sum(axis=2)[..., None],
            'sum for %r' % key)
        equal('does not match' in out.getvalue(), not idx, 'warning')
    for k1, k2 in itertools.combinations(groups, 2):
        i, j = groups[k1], groups[k2]
        # selections of the same group may overlap
        with contextlib.redirect_stdout(io.StringIO()):
            got = el.proj_sum(proj, given, '%s, %s' % (k1, k2), k1)
        close(got, np.stack([proj[..., sorted(x)].sum(axis=2)
            for x in (set(i) | set(j), set(i))], axis=2),
            'sum for %r, %r' % (k1, k2))
        if set(i) & set(j) or not i or not j:
            continue
        got = el.proj_sum(proj, given, k1, k2, other=True)
        want = np.stack([proj[..., i].sum(axis=2), proj[..., j].sum(axis=2)],
            axis=2)
        want = np.concatenate([want, 1 - want.sum(axis=2)[..., None]], axis=2)
        close(got, want, 'sums for %r, %r' % (k1, k2))
        ctx.traces += 1
    ctx.outcome((atoms, soc))

# --- densities and wave functions

def record(f, data):
    f.write(struct.pack('<i', len(data)) + data + struct.pack('<i', len(data)))

PARAMETERS = dict(a=4.0, b=5.0, c=6.5)

@check.family
def density(ctx, ibrav, shape, nat):
    """Charge density in real space."""

    shape = tuple(shape)
    celldm = [7.5, 1.2, 1.6, 0.0, 0.0, 0.0]
    rho = abs(gen.real(shape, 'rho', *shape))
    rho = np.array([float('%.9e' % x) for x in rho.flat])
    vectors = gen.lattice('tri' if nat == 1 else 'lef')
    for title in '', ' ' * 75, '   2 layers':
        text = title + '\n' + '%8d' * 8 % (*shape, *shape, nat, 1) + '\n'
        text += '%6d' % ibrav + '%12.8f' * 6 % tuple(celldm) + '\n'
        if not ibrav:
            for x in vectors / celldm[0]:
                text += '%25.16f%25.16f%25.16f\n' % tuple(x)
        text += '%20.10f%20.10f%20.10f%6d\n' % (90.0, 4.0, 30.0, 0)
        text += '%4d   %2s   %5.2f\n' % (1, 'Ta', 13.0)
        for n in range(nat):
            text += '%4d   %15.9f%15.9f%15.9f   %2d\n' % (n + 1, 0.1, 0.2 * n,
                0.3, 1)
        text += columns(rho, '%17.9E', 5)
        write('rho.dat', text)
        with contextlib.redirect_stdout(io.StringIO()):
            got, charge = el.read_pp_density('rho.dat')
        close(got, rho, 'density')
        a = b.primitives(ibrav=ibrav, celldm=celldm, bohr=True) \
            if ibrav else vectors
        close(charge, rho.sum() / len(rho) * abs(np.linalg.det(a)), 'charge')
    ctx.outcome((ibrav, shape, nat), len(rho) > 1)

@check.family
def reciprocal(ctx, ibrav, nmax, nb, npol):
    """Density and wave functions in reciprocal space, Hartree energy."""

    a = b.primitives(ibrav=ibrav, bohr=True, **PARAMETERS)
    alat = PARAMETERS['a'] / a0
    B = np.linalg.inv(a).T * 2 * math.pi
    mill = np.array(sorted(itertools.product(range(-nmax, nmax + 1), repeat=3),
        key=lambda G: np.linalg.norm(np.array(G) @ B)), dtype=np.int32)
    N = len(mill)
    rho = gen.cplx((N,), 'rhoG', N)
    with open('rho.dat', 'wb') as f:
        record(f, struct.pack('<3i', 0, N, 1))
        record(f, B.astype('<f8').tobytes())
        record(f, mill.astype('<i4').tobytes())
        record(f, rho.astype('<c16').tobytes())
    got, G, ngm, V, m = el.read_rhoG_density('rho.dat', ibrav, **PARAMETERS)
    close(got, rho, 'density')
    close(G, mill @ B * alat / (2 * math.pi), 'reciprocal lattice vectors')
    equal((int(ngm), m.tolist()), (N, mill.tolist()), 'Miller indices')
    close(abs(V), abs(np.linalg.det(a)), 'volume')
    E = elphmod.elel.hartree_energy(got, G, ngm, V, a=PARAMETERS['a'])
    Gs = np.linalg.norm(mill[1:] @ B, axis=1)
    close(E, 0.5 * abs(np.linalg.det(a)) * (8 * math.pi * abs(rho[1:]) ** 2
        / Gs ** 2).sum(), 'Hartree energy')

    k = gen.real((3,), 'k')
    psi = gen.cplx((nb, npol * N), 'wfc', nb, npol)
    with open('wfc.dat', 'wb') as f:
        record(f, struct.pack('<i', 1) + k.astype('<f8').tobytes()
            + struct.pack('<2i', 1, 0) + struct.pack('<d', 1.0))
        record(f, struct.pack('<4i', N, N, npol, nb))
        record(f, B.astype('<f8').tobytes())
        record(f, mill.astype('<i4').tobytes())
        for v in psi:
            record(f, v.astype('<c16').tobytes())
    evc, n, xk, kG, G, m = el.read_wfc('wfc.dat', ibrav, **PARAMETERS)
    close(evc, psi, 'wave functions')
    equal((int(n), m.tolist()), (N, mill.tolist()), 'Miller indices')
    close(xk, k * alat / (2 * math.pi), 'k point')
    close(G, mill @ B * alat / (2 * math.pi), 'reciprocal lattice vectors')
    close(kG, xk + G, 'shifted reciprocal lattice vectors')
    ctx.outcome((ibrav, nmax, nb, npol))

# --- from PHonon to EPW

@check.family
def ph2epw(ctx, nq, ext, paw, via):
    """Files collected for EPW."""

    os.makedirs('work/_ph0/x.phsave')
    write('work/_ph0/x.phsave/control.xml', 'control')
    want = {'x.phsave/control.xml': 'control'}
    for n in range(1, nq + 1):
        write('dyn%d%s' % (n, ext), 'dyn %d' % n)
        want['x.dyn_q%d%s' % (n, ext)] = 'dyn %d' % n
        orig = 'work/_ph0' + ('/x.q_%d' % n if n > 1 else '')
        os.makedirs(orig, exist_ok=True)
        for suffix in ['dvscf'] + ['dvscf_paw'] * paw:
            write('%s/x.%s1' % (orig, suffix), '%s %d' % (suffix, n))
            want['x.%s_q%d' % (suffix, n)] = '%s %d' % (suffix, n)
    write('dyn0', 'mesh')
    kw = dict(fildyn='dyn' + (ext if via == 'ext' else ''), outdir='work',
        dvscf_dir='save')
    if via == 'env':
        os.environ.update(kw)
        kw = dict(fildyn='wrong', outdir='wrong', dvscf_dir='wrong')
    try:
        elphmod.elph.ph2epw(**kw)
        elphmod.elph.ph2epw(**kw) # existing directory is left alone
    finally:
        for key in kw:
            os.environ.pop(key, None)
    got = {}
    for path, _, files in os.walk('save'):
        for name in files:
            full = os.path.join(path, name)
            got[os.path.relpath(full, 'save')] = open(full).read()
    equal(got, want, 'files')
    ctx.outcome((nq, ext, paw, via))

# --- electron-phonon coupling

def hexagonal(n):
    """Images of all points under point group for angle of 60 degrees."""

    for mirror in False, True:
        for turns in range(6):
            S = {}
            for k in itertools.product(range(n), repeat=2):
                x = k[::-1] if mirror else k
                for _ in range(turns):
                    x = (-x[1], x[0] + x[1])
                S[k] = (x[0] % n, x[1] % n)
            yield S

@check.family
def epw_output(ctx, nq, nk, nb, nph, extra):
    """Coupling and phonon energies printed by EPW."""

    Q = list(itertools.product(range(nq), repeat=2))
    K = list(itertools.product(range(nk), repeat=2))
    w = np.round(10 + gen.real((len(Q), nph), 'w'), 6)
    g = np.round(gen.cplx((len(Q), nph, len(K), nb, nb), 'g'), 6)
    a = np.round(abs(g), 6)

    text = '     Program EPW\n\n     L 1.2500\n\n'
    if extra:
        # points that do not belong to the uniform meshes
        Qs = [(0.1 / nq, 0)] + [tuple(c / nq for c in q) for q in Q] \
            + [(0, 0.4 / nq)]
        Ks = [(0.3 / nk, 0)] + [tuple(c / nk for c in k) for k in K] \
            + [(0, 0.4 / nk)]
    else:
        Qs = [tuple(c / nq for c in q) for q in Q]
        Ks = [tuple(c / nk for c in k) for k in K]
    if extra == 'negative':
        Qs = [(x - 1, y) if x else (x, y - 1) for x, y in Qs]
        Ks = [(x, y - 1) for x, y in Ks]
    for i, q in enumerate(Qs):
        iq = i - bool(extra)
        text += '     iq = %9d coord.: %12.7f%12.7f%12.7f\n' % (i + 1, *q, 0)
        for j, k in enumerate(Ks):
            ik = j - bool(extra)
            text += '     ik = %9d coord.: %12.7f%12.7f%12.7f\n' % (j + 1, *k,
                0)
            text += ' ibnd     jbnd     imode   enk[eV]    enk+q[eV]' \
                '  omega(q)[meV]   |g|[meV]\n ' + '-' * 78 + '\n'
            good = 0 <= iq < len(Q) and 0 <= ik < len(K)
            for n, m, nu in itertools.product(range(nb), range(nb),
                    range(nph)):
                text += '%9d%9d%9d%12.4f%12.4f%20.10f' % (n + 1, m + 1,
                    nu + 1, 0.1 * n, 0.2 * m, w[iq, nu] if good else 99)
                x = g[iq, nu, ik, m, n] if good else 99 + 98j
                text += '%20.10f%20.10f%20.10f\n' % (abs(x) if not good
                    else a[iq, nu, ik, m, n], x.real, x.imag) \
                    if extra == 'complex' else '%20.10f\n' % (a[iq, nu, ik, m,
                    n] if good else 99)
            text += ' ' + '-' * 78 + '\n\n'
    write('epw.out', text)

    close(elphmod.elph.read_L('epw.out'), 1.25, 'L')
    write('empty.out', 'Program EPW\n\n')
    require(elphmod.elph.read_L('empty.out') is None, 'L')

    if not extra:
        got = elphmod.elph.read_prtgkk('epw.out', len(Q), nph, len(K), nb)
        close(got[0], w, 'phonon energies')
        close(got[1], a, 'coupling')

    mesh = (len(Q), nph, nk, nk, nb, nb)
    for order in {tuple(Q), tuple(Q[::-1]), tuple(Q[1::2]), tuple(Q[::3])}:
        sel = [Q.index(q) for q in order]
        if not sel:
            continue
        read = lambda **kw: elphmod.elph.read_EPW_output('epw.out',
            [list(q) for q in order], nq, nph, nk, nb, **kw)
        if extra == 'complex':
            close(read(epf=True), g.reshape(mesh)[sel] * 1e-3 ** 1.5, 'complex')
        else:
            close(read(), a.reshape(mesh)[sel] * 1e-3, 'coupling')
            close(read(defpot=True), (a * np.sqrt(2 * w)[:, :, None, None,
                None]).reshape(mesh)[sel] * 1e-3 ** 1.5, 'potential')
            got = read(squeeze=True)
            close(got, (a.reshape(mesh)[sel] * 1e-3)[(Ellipsis,) + (0, 0)
                * (nb == 1)], 'squeezed')
    ctx.outcome((nq, nk, nb, nph, extra, a), nontrivial=nq * nk > 1)

@check.family
def coupling_files(ctx, nq, nk, nb, nph, offset, above, phase):
    """Coupling in one text file for each irreducible q point."""

    irr = sorted(b.irreducibles(nq))
    shape = (nph, nb, nb, nq, nq, nk, nk)
    h = (gen.cplx if phase else gen.real)(shape, 'h')
    f = np.zeros_like(h)
    for Sq, Sk in zip(hexagonal(nq), hexagonal(nk)):
        for q in Sq:
            for k in Sk:
                f[(...,) + q + k] += h[(...,) + Sq[q] + Sk[k]]
    # only the little group of q relates different k points
    low, high = (-offset, nb + above)
    for every in True, False:
        for iq, q in enumerate(irr):
            lines = ['# k1 k2 jbnd ibnd nu g']
            for k in itertools.product(range(nk), repeat=2):
                if not every:
                    # choose one representative of each orbit
                    images = {Sk[k] for Sq, Sk in zip(hexagonal(nq),
                        hexagonal(nk)) if Sq[q] == q}
                    if min(images) != k:
                        continue
                for m, n in itertools.product(range(low, high), repeat=2):
                    inside = 0 <= m < nb and 0 <= n < nb
                    for nu in range(nph):
                        x = f[(nu, m, n) + q + k] if inside else 77.0
                        lines.append('%d %d 0.5 %d %d %d %s' % (k[0] + 1,
                            k[1] + 1, n + 1 + offset, m + 1 + offset, nu + 1,
                            '%.15g %.15g' % (x.real, x.imag) if phase else
                            '%.15g' % x))
            write('g%d' % (iq + 1), '\n'.join(lines) + '\n')

        kw = dict(offset=offset, phase=phase)
        want = np.array([f[(slice(None),) * 3 + q].transpose(0, 3, 4, 1, 2)
            for q in irr])
        if every:
            for completion in False, True:
                close(elphmod.elph.coupling('g%d', len(irr), nph, nk, nb,
                    completion=completion, **kw), want, 'coupling', tol=1e-9)
            Q = np.arange(len(irr))[::-1] + 1
            got = elphmod.elph.coupling('g%d', 0, nph, nk, nb, Q=Q,
                squeeze=True, **kw)
            close(got, want[::-1][(Ellipsis,) + (0, 0) * (nb == 1)],
                'selected points', tol=1e-9)
            full = f.transpose(3, 4, 0, 5, 6, 1, 2)
            close(elphmod.elph.coupling('g%d', len(irr), nph, nk, nb, nq=nq,
                complete_k=True, **kw), full, 'all q points', tol=1e-9)
        else:
            got = elphmod.elph.coupling('g%d', len(irr), nph, nk, nb,
                completion=False, **kw)
            for iq, q in enumerate(irr):
                for k in itertools.product(range(nk), repeat=2):
                    images = {Sk[k] for Sq, Sk in zip(hexagonal(nq),
                        hexagonal(nk)) if Sq[q] == q}
                    part = got[iq, :, k[0], k[1]]
                    if min(images) == k:
                        close(part, want[iq, :, k[0], k[1]], 'known', tol=1e-9)
                    else:
                        require(np.isnan(part).all(), 'unknown coupling')
            # zone center: full point group
            got = elphmod.elph.coupling('g%d', 1, nph, nk, nb, **kw)
            close(got, want[:1], 'completed coupling', tol=1e-9)
    ctx.outcome((nq, nk, nb, nph, offset, above, phase), nontrivial=nk > 1)

@check.family
def patterns(ctx, nq, nrep):
    """Displacement patterns."""

    u = np.round(gen.real((nq, nrep, nrep), 'u'), 8)
    for iq in range(nq):
        text = '<?xml version="1.0"?>\n<Root>\n  <IRREPS_INFO>\n' \
            '    <QPOINT_GROUP_RANK type="integer">\n 12\n' \
            '    <NUMBER_IRR_REP type="integer" size="1">\n%10d\n' \
            '    </NUMBER_IRR_REP>\n' % nrep
        for i in range(nrep):
            text += '    <REPRESENTION.%d>\n      <NUMBER_OF_PERTURBATIONS ' \
                'type="integer" size="1">\n         1\n' % (i + 1)
            text += '        <DISPLACEMENT_PATTERN type="complex" size="%d">\n' \
                % nrep
            for j in range(nrep):
                text += '%23.15E,%23.15E\n' % (u[iq, i, j], 0)
            text += '        </DISPLACEMENT_PATTERN>\n'
        write('patterns.%d.xml' % (iq + 1), text)
    read = elphmod.elph.read_patterns
    close(read('patterns.%d.xml', nq, nrep, status=False), u, 'patterns')
    for q in itertools.permutations(range(nq), min(nq, 2)):
        close(read('patterns.%d.xml', list(q), nrep, status=False),
            u[list(q)], 'patterns of selected q points')
    ctx.outcome((nq, nrep, u))

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'
    for nk in range(1, 6 if thorough else 4):
        for nb in range(1, 26 if thorough else 18):
            for smear in ('Fermi-Dirac', 'Gaussian', 'Methfessel-Paxton',
                    'Marzari-Vanderbilt') if nb < 10 else ('Fermi-Dirac',):
                for level in 'fermi', 'gap', 'top', None:
                    for steps in 1, 2:
                        if level != 'fermi' and (smear != 'Fermi-Dirac'):
                            continue
                        yield 'pw_output', dict(nk=nk, nb=nb, smear=smear if
                            level == 'fermi' else '', level=level, steps=steps)
            yield 'bands_output', dict(nk=nk, nb=nb)
            if nb < 9:
                for no in 1, 2, 5:
                    for per_line in 1, 3, 4:
                        yield 'projections', dict(nk=nk, nb=nb, no=no,
                            per_line=per_line)
    P = [list(p) for p in itertools.permutations(range(3))]
    for n in range(4 if thorough else 3):
        for perms in itertools.product(P, repeat=n):
            yield 'disentangle', dict(perms=list(perms))
    for ibrav in 0, 1, 2, 3, 4, 6, 8, 12, 14:
        for size in 1, 2:
            if ibrav:
                yield 'decay', dict(ibrav=ibrav, size=size)
        for shape in [1, 1, 1], [5, 1, 1], [2, 3, 1], [2, 2, 3], [4, 3, 5]:
            for nat in 1, 2, 6:
                yield 'density', dict(ibrav=ibrav, shape=shape, nat=nat)
        for nmax in (1, 2) if ibrav else ():
            for nb in 1, 3:
                for npol in 1, 2:
                    yield 'reciprocal', dict(ibrav=ibrav, nmax=nmax, nb=nb,
                        npol=npol)
    for n in range(1, 5 if thorough else 4):
        for atoms in itertools.product(ATOMS, repeat=n):
            for soc in False, True:
                yield 'orbitals', dict(atoms=list(atoms), soc=soc)
    for nq in range(1, 12):
        for ext in '', '.xml':
            for paw in False, True:
                for via in 'args', 'env', 'ext':
                    yield 'ph2epw', dict(nq=nq, ext=ext, paw=paw, via=via)
    for nq in range(1, 4):
        for nk in range(1, 5 if thorough else 4):
            for nb in range(1, 4 if thorough else 3):
                for nph in 1, 3:
                    for extra in '', 'points', 'negative', 'complex':
                        yield 'epw_output', dict(nq=nq, nk=nk, nb=nb, nph=nph,
                            extra=extra)
                    for phase in False, True:
                        for offset, above in (0, 0), (1, 0), (2, 1), (0, 1):
                            yield 'coupling_files', dict(nq=nq, nk=nk, nb=nb,
                                nph=nph, offset=offset, above=above,
                                phase=phase)
        for nrep in 1, 3, 6:
            yield 'patterns', dict(nq=nq, nrep=nrep)

check.main()
