"""C18: charge-density-wave dynamics on supercells."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import copy, itertools, math
import numpy as np

import elphmod.bravais, elphmod.el, elphmod.elph, elphmod.md
import elphmod.occupations, elphmod.ph

from mc import gen
from mc.common import Check, Violation, require, close, equal, digest

elphmod.misc.verbosity = 0

check = Check('C18', 'model_checking',
    rule='all sequences of driver operations up to length 3 (quick) or 4 '
    '(thorough) for dense and sparse drivers, each compared with a fresh '
    'driver for the same structure; all models, meshes, smearings within '
    'bounds against an independent free energy and its derivatives')

SMEARINGS = dict(fd='f-d', gauss='gauss', mp='m-p', mv='m-v')

def parts(nat, size, nmax, lat='tri', complex_=False, seed=0, polar=False):
    """Model built from bonds, invariant under translation."""

    R = gen.box(nmax)
    idx = {tuple(r): n for n, r in enumerate(R)}
    n0 = idx[0, 0, 0]
    atom = [o * nat // size for o in range(size)]
    num = (lambda *s: gen.cplx(*s)) if complex_ else (lambda *s: gen.real(*s))

    el = elphmod.el.Model(rydberg=True)
    el.R, el.size, el.nk = R.copy(), size, (1, 1, 1)
    t = num((len(R), size, size), 'md el', seed) * 0.1
    t *= np.exp(-0.4 * (R ** 2).sum(axis=1))[:, None, None]
    el.data = gen.hermitian_R(R, t).astype(complex)
    el.data[n0] += np.diag(np.arange(size) * 0.07)

    a = gen.lattice(lat)
    ph = elphmod.ph.Model(amass=np.array(gen.MASSES[:nat]), at=a,
        tau=gen.positions(a, nat, 'md', seed), atom_order=gen.NAMES[:nat],
        divide_mass=False)
    C = np.zeros((len(R), nat, 3, nat, 3))
    for n, r in enumerate(R):
        m = idx[tuple(-r)]
        for i, j in itertools.product(range(nat), repeat=2):
            if (n, i) == (m, j):
                continue
            K = gen.real((3, 3), 'spring', min((n, i, j), (m, j, i)), seed)
            K = (K @ K.T + 0.3 * np.eye(3)) * 0.2 * math.exp(-0.4 * r @ r)
            C[n, i, :, j] -= K
            C[n0, i, :, i] += K
    ph.R, ph.data = R.copy(), C.reshape((len(R), 3 * nat, 3 * nat))
    ph.l = np.zeros((len(R), nat, nat))
    ph.nq = (1, 1, 1)

    g = np.zeros((len(R), nat, 3, len(R), size, size), dtype=complex)
    for n, r in enumerate(R):
        m = idx[tuple(-r)]
        for o, p in itertools.product(range(size), repeat=2):
            i, j = atom[o], atom[p]
            if (n, i) == (n0, j):
                continue
            key = min((n, o, p), (m, p, o))
            v = num((3,), 'bond', key, seed) * 0.03 * math.exp(-0.3 * r @ r)
            if key != (n, o, p):
                v = -np.conj(v)
            g[n, j, :, n, o, p] += v
            g[n0, i, :, n, o, p] -= v
    # Rg for which <0|dV(Rg)|Rk> is nonzero: both ends of each bond
    elph = elphmod.elph.Model(el=el, ph=ph, Rk=R.copy(), Rg=R.copy(),
        dk=np.ones((1, 1, len(R)), dtype=int),
        dg=np.ones((1, 1, 1, len(R)), dtype=int), divide_mass=False)
    gen.fill(elphmod, elph, g.reshape((len(R), 3 * nat, len(R), size, size)))
    if polar:
        ph.eps = np.diag([2.5, 3.1, 4.2]) + 0.1 * (1 - np.eye(3))
        ph.Z = gen.real((nat, 3, 3), 'md Z', seed)
        ph.Z -= ph.Z.mean(axis=0)
        ph.lr, ph.lr2d = True, False
        ph.prepare_long_range()
    return elph

def displacement(nat, seed, scale=0.2):
    u = gen.real((nat, 3), 'u', seed) * scale
    u -= u.mean(axis=0)
    return u.ravel()

# --- independent free energy

def numeric_omega(f, x):
    """Minus integral of occupation from x to infinity."""

    t, w = np.polynomial.legendre.leggauss(200)
    hi = 40.0
    x = np.asarray(x)
    s = (hi - x)[..., None] / 2 * t + (hi + x)[..., None] / 2
    return -(f(s) * w).sum(axis=-1) * (hi - x) / 2

class Reference:
    """Free energy from eigenvalues of perturbed Hamiltonian."""

    def __init__(self, elph, kT, f, n, nk, unscreen, C0=None):
        self.kT, self.f, self.n = kT, elphmod.occupations.smearing(f), n
        ks = list(itertools.product(*[2 * np.pi * np.arange(N) / N
            for N in nk]))
        self.H0 = np.array([sum(d * np.exp(1j * np.dot(k, r))
            for d, r in zip(elph.el.data, elph.el.R)) for k in ks])
        gR = elph.data.sum(axis=0) # q = 0
        self.d0 = np.array([sum(gR[:, j] * np.exp(1j * np.dot(k, r))
            for j, r in enumerate(elph.Rk)) for k in ks])
        self.C = elph.ph.data.sum(axis=0)
        self.F0 = np.zeros(len(self.C))
        self.C0 = self.C
        zero = np.zeros(len(self.C))
        self.F0 = -self.gradient(zero)
        if unscreen:
            self.C0 = self.C - self.curvature(zero)

    def levels(self, u):
        return np.linalg.eigvalsh(self.H0
            + np.einsum('kxab,x->kab', self.d0, u))

    def mu(self, e):
        lo, hi = e.min() - 20 * self.kT, e.max() + 20 * self.kT
        for _ in range(55):
            m = (lo + hi) / 2
            if 2 * self.f((e - m) / self.kT).sum() / len(e) < self.n:
                lo = m
            else:
                hi = m
        return (lo + hi) / 2

    def electronic(self, u):
        e = self.levels(u)
        m = self.mu(e)
        return (2 * self.kT * numeric_omega(self.f, (e - m) / self.kT).sum()
            / len(e) + m * self.n)

    def numeric(self, u, h=2e-3):
        """Gradient and Hessian of electronic free energy."""

        return self.gradient(u, h), self.curvature(u, h)

    def gradient(self, u, h=2e-3):
        I = np.eye(len(u)) * h
        E = self.electronic
        return np.array([(8 * (E(u + d) - E(u - d)) - E(u + 2 * d)
            + E(u - 2 * d)) / (12 * h) for d in I])

    def curvature(self, u, h=2e-3):
        N = len(u)
        I = np.eye(N) * h
        E = self.electronic
        H = np.empty((N, N))
        for i in range(N):
            for j in range(i, N):
                H[i, j] = H[j, i] = (E(u + I[i] + I[j]) - E(u + I[i] - I[j])
                    - E(u - I[i] + I[j]) + E(u - I[i] - I[j])) / (4 * h * h)
        return H

    def energy(self, u):
        return (self.electronic(u) + 0.5 * u @ self.C0.real @ u + self.F0 @ u)

    def forces(self, u):
        return self.gradient(u) + self.C0 @ u + self.F0

    def derivatives(self, u):
        g, H = self.numeric(u)
        return g + self.C0 @ u + self.F0, H + self.C0

@check.family
def physics(ctx, nat, size, nmax, nk, f, kT, n, unscreen, complex_):
    """Free energy, forces, and Hessian of perturbed crystal."""

    elph = parts(nat, size, nmax, complex_=complex_)
    d = elphmod.md.Driver(elph, kT=kT, f=SMEARINGS[f], n=n, nk=nk,
        unscreen=unscreen)
    nk3 = tuple(nk) + (1,) * (3 - len(nk))
    ref = Reference(elph, kT, SMEARINGS[f], n, nk3, unscreen)
    tol = 2e-5

    close(d.jacobian(show=False), np.zeros(3 * nat), 'force on given structure',
        tol=1e-12)
    scale = abs(ref.C0).max() + 1e-3
    C = d.hessian()
    if unscreen:
        close(C, ref.C, 'force constants of given structure', tol=1e-10)
    close(C, ref.derivatives(np.zeros(3 * nat))[1], 'Hessian',
        tol=3e-3 * scale)
    E00 = d.free_energy(show=False)
    close(E00, ref.energy(d.u), 'free energy of given structure', tol=tol)

    for seed in 1, 2:
        u = displacement(nat, seed, 0.3 * seed)
        E = d.free_energy(u.copy(), show=False)
        close(d.u, u, 'displacements')
        close(E, ref.energy(u), 'free energy', tol=tol)
        g, H = ref.derivatives(u)
        close(d.jacobian(show=False), g, 'negative forces', tol=2e-5)
        close(d.hessian(), H, 'second derivative', tol=3e-3 * scale)
        e = ref.levels(u)
        close(np.sort(d.e.ravel()), np.sort((e - ref.mu(e)).ravel()),
            'energies', tol=1e-4)
        # density
        rho = d.density()
        close(rho.sum(), n, 'number of electrons', tol=2e-5)
        w, U = np.linalg.eigh(ref.H0 + np.einsum('kxab,x->kab', ref.d0, u))
        want = 2 * np.einsum('kan,kn->a', abs(U) ** 2,
            d.f((w - ref.mu(e)) / kT)) / len(w)
        close(rho, want, 'density', tol=1e-4)
        d.basis = [[o for o in range(size) if o * nat // size == i]
            for i in range(nat)]
        close(d.density_per_atom(), [want[b].sum() for b in d.basis],
            'density per atom', tol=1e-4)
        # i-PI interface in Hartree; rigid shift is irrelevant
        r = elph.ph.r + u.reshape((-1, 3)) + [0.3, -0.2, 0.1]
        E2, F2, virial, extras = d(elph.ph.a, r)
        close(E2, E / 2, 'i-PI energy', tol=1e-9)
        close(F2, -g / 2, 'i-PI forces', tol=2e-5)
        equal(np.shape(virial), (3, 3), 'shape of virial')
    ctx.outcome((nat, size, nmax, nk, f, kT, n, unscreen, E))

# --- supercells

def cells(N):
    N = elphmod.bravais.supercell(*N)
    return N[1], N[-1]

@check.family
def folding(ctx, nat, size, nmax, N, mult, f, kT, n, displaced, route,
        polar=False):
    """Results on primitive cell and supercell agree."""

    elph = parts(nat, size, nmax, polar=polar)
    V = math.prod(N)
    nk = tuple(a * b for a, b in zip(N, mult))
    d = elphmod.md.Driver(elph, kT=kT, f=SMEARINGS[f], n=n, nk=nk, nq=N)
    if route == 'dense':
        s = elphmod.md.Driver(elph.supercell(*N), kT=kT, f=SMEARINGS[f],
            n=n * V, nk=mult)
    elif route == 'sparse':
        s = elphmod.md.Driver(elph.supercell(*N, sparse=True), kT=kT,
            f=SMEARINGS[f], n=n * V)
    else:
        s = elphmod.md.Driver(elph, kT=kT, f=SMEARINGS[f], n=n, nk=nk, nq=N,
            supercell=N)
    equal(s.sparse, route != 'dense', 'sparse')
    close(s.n, n * V, 'number of electrons')
    u = displacement(nat, 1) if displaced else np.zeros(3 * nat)
    E = d.free_energy(u.copy(), show=False)
    Es = s.free_energy(np.tile(u, V), show=False)
    tol = 1e-4 if polar else 1e-5 # finite number of reciprocal vectors
    close(Es, V * E, 'free energy', tol=2 * tol * V)
    close(s.jacobian(show=False), np.tile(d.jacobian(show=False), V),
        'forces', tol=tol)

    c = elphmod.bravais.supercell(*N)[-1]
    for asr in False, True:
        C = d.hessian(gamma_only=False, apply_asr_simple=asr)
        equal(len(C), V, 'number of q points')
        want = np.zeros((V, 3 * nat, V, 3 * nat), dtype=complex)
        # u(R) = exp(iqR): force constants from 0 at R
        for i, j in itertools.product(range(V), repeat=2):
            R = np.subtract(c[j], c[i])
            want[i, :, j] = sum(D * np.exp(-1j * np.dot(q, R))
                for D, q in zip(C, d.q)) / V
        want = want.reshape((3 * nat * V,) * 2)
        close(want.imag, np.zeros(want.shape), 'imaginary part', tol=1e-9)
        close(s.hessian(apply_asr_simple=asr), want.real, 'Hessian', tol=tol)
    close(s.density(), np.tile(d.density(), V), 'density', tol=tol)

    if polar: # acoustic frequencies only vanish approximately
        ctx.outcome((nat, size, nmax, N, mult, f, displaced, route, E), V > 1)
        return

    # Fermi-surface averages and superconductivity
    a = d.superconductivity()
    b = s.superconductivity()
    close(b[0], a[0], 'coupling strength', tol=1e-3 * abs(a[0]) + 1e-7)
    if a[0] > 1e-3:
        close(b[1:3], a[1:3], 'average phonon frequencies',
            tol=1e-3 * abs(a[2]))
    close(b[3], a[3], 'lowest phonon frequency', tol=1e-5)
    ctx.outcome((nat, size, nmax, N, mult, f, displaced, route, E), V > 1)

@check.family
def frozen(ctx, nat, N, f, kT, n):
    """Sparse and dense drivers agree for arbitrary displacements."""

    elph = parts(nat, nat, tuple(int(x > 1) for x in N))
    V = math.prod(N)
    drivers = [elphmod.md.Driver(elph.supercell(*N), kT=kT, f=SMEARINGS[f],
            n=n * V),
        elphmod.md.Driver(elph.supercell(*N, sparse=True), kT=kT,
            f=SMEARINGS[f], n=n * V),
        elphmod.md.Driver(elph, kT=kT, f=SMEARINGS[f], n=n, nk=N, nq=N,
            supercell=N)]
    ref = Reference(elph.supercell(*N), kT, SMEARINGS[f], n * V, (1, 1, 1),
        True) if V * nat <= 4 else None
    for seed in 1, 2:
        u = displacement(nat * V, seed, 0.3)
        E, F, H, A, K = [], [], [], [], []
        for d in drivers:
            E.append(d.free_energy(u.copy(), show=False))
            F.append(d.jacobian(show=False))
            H.append(d.hessian())
            A.append(d.hessian(apply_asr_simple=True))
            K.append(d.hessian(kT=0.07)[1].real)
        for x, what in ((E, 'free energies'), (F, 'forces'), (H, 'Hessians'),
                (A, 'corrected Hessians'), (K, 'Fermi-surface averages')):
            close(x[1], x[0], what, tol=2e-5 * V)
            close(x[2], x[0], what, tol=2e-5 * V)
        for x in A:
            close(x.reshape((nat * V, 3, -1, 3)).sum(axis=2),
                np.zeros((nat * V, 3, 3)), 'acoustic sum', tol=1e-9)
        if ref is not None:
            close(E[0], ref.energy(u), 'free energy', tol=2e-5)
            close(F[0], ref.forces(u), 'forces', tol=2e-5)
    ctx.outcome((nat, N, f, kT, n, E), V > 1)

# --- output

def read_fildyn(filename, size):
    """Read q points (2 pi / alat) and matrices from file."""

    q, D = [], []
    with open(filename) as lines:
        for line in lines:
            w = line.split()
            if w[:2] == ['q', '=']:
                q.append([float(x) for x in w[3:6]])
                D.append(np.zeros((size, size), dtype=complex))
                next(lines)
                for _ in range((size // 3) ** 2):
                    i, j = (int(x) - 1 for x in next(lines).split())
                    for x in range(3):
                        v = [float(y) for y in next(lines).split()]
                        for y in range(3):
                            D[-1][3 * i + x, 3 * j + y] = complex(v[2 * y],
                                v[2 * y + 1])
    return q, D

@check.family
def output(ctx, nat, size, nk, nq, what, displaced, polar=False):
    """Models and files for current structure."""

    nmax = tuple(int(x > 1) for x in nk)
    elph = parts(nat, size, nmax, complex_=what != 'save', polar=polar)
    d = elphmod.md.Driver(elph, kT=0.03, f='fd', n=1.1, nk=nk, nq=nq)
    u = displacement(nat, 3) if displaced else np.zeros(3 * nat)
    d.free_energy(u.copy(), show=False)
    before = content(elph, False)

    if what == 'electrons':
        H = ((d.U * d.e[..., None, :]) @ d.U.conj().swapaxes(-2, -1)).reshape(
            (-1, size, size))
        ref = Reference(elph, 0.03, 'fd', 1.1, nk, True)
        for dk in itertools.product(*[[x for x in (1, 2) if N % x == 0]
                for N in nk]):
            for rydberg in False, True:
                el = d.electrons(seedname='md', dk1=dk[0], dk2=dk[1],
                    dk3=dk[2], rydberg=rydberg)
                again = elphmod.el.Model('md', rydberg=rydberg)
                unit = 1 if rydberg else elphmod.misc.Ry
                for i, k in enumerate(itertools.product(*map(range, nk))):
                    if any(x % y for x, y in zip(k, dk)):
                        continue
                    h = H[i] * unit
                    w = 2 * np.pi * np.array(k) / nk
                    close(el.H(*w), h, 'Hamiltonian', tol=1e-8)
                    close(again.H(*w), h, 'Hamiltonian from file', tol=1e-4)
                    want = (ref.H0[i] + np.einsum('xab,x->ab', ref.d0[i], u)
                        - d.mu * np.eye(size))
                    close(h, want * unit, 'perturbed Hamiltonian', tol=1e-8)
        equal(content(elph, False), before, 'given model')
    elif what == 'phonons':
        C = d.hessian(gamma_only=False)
        r = elph.ph.r.copy()
        for divide_mass in False, True:
            ph = d.phonons(divide_mass=divide_mass)
            m = np.sqrt(np.repeat(elph.ph.M, 3))
            mm = np.outer(m, m) if divide_mass else 1
            for i, q in enumerate(d.q):
                close(ph.D(*q) * mm, C[i], 'dynamical matrix', tol=1e-9)
            close(ph.r, r + u.reshape((-1, 3)), 'atomic positions')
            equal(ph.divide_mass, divide_mass, 'division by mass')
        close(elph.ph.r, r, 'positions of given model')
        d.hessian(gamma_only=False, fildyn='fildyn')
        q, D = read_fildyn('fildyn', 3 * nat)
        close(q, d.q @ np.linalg.inv(elph.ph.a).T / (2 * np.pi)
            * np.linalg.norm(elph.ph.a[0]), 'q points in file', tol=1e-8)
        close(D, C, 'force constants in file', tol=1e-7)
    elif what == 'files':
        d.to_xyz('a.xyz')
        with open('a.xyz') as lines:
            lines = lines.read().splitlines()
        equal(lines[0].split(), [str(nat)], 'number of atoms')
        head = lines[1].split()
        equal(head[:2], ['#', 'CELL{H}:'], 'format of cell')
        # matrix with lattice vectors as columns:
        close(np.reshape(list(map(float, head[2:])), (3, 3)), elph.ph.a.T,
            'cell', tol=1e-8)
        equal([line.split()[0] for line in lines[2:]],
            list(elph.ph.atom_order), 'atoms')
        close([list(map(float, line.split()[1:])) for line in lines[2:]],
            elph.ph.r + u.reshape((-1, 3)), 'positions', tol=1e-8)
        u2 = displacement(nat, 4)
        e = elphmod.md.Driver(elph, kT=0.03, f='fd', n=1.1, nk=nk, nq=nq)
        e.from_xyz('a.xyz')
        close(e.u, u, 'displacements from file', tol=1e-8)
        d.u = u2.copy()
        d.to_xyz('a.xyz', append=True)
        e.from_xyz('a.xyz')
        close(e.u, u2, 'last displacements from file', tol=1e-8)
        d.to_xyz('a.xyz')
        with open('a.xyz') as lines:
            equal(len(lines.readlines()), nat + 2, 'lines in overwritten file')
        # incompatible structures do not change anything
        names = elph.ph.atom_order
        other = copy.copy(d)
        other.elph = copy.copy(d.elph)
        other.elph.ph = copy.copy(d.elph.ph)
        other.elph.ph.atom_order = ['Zz'] + list(names)[1:]
        other.u = displacement(nat, 5)
        other.to_xyz('b.xyz')
        e.u = u.copy()
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            e.from_xyz('b.xyz')
        close(e.u[:3], u[:3], 'displacements of other atom')
        close(e.u[3:], other.u[3:], 'displacements of same atoms', tol=1e-8)

        d.u = u.copy()
        d.to_pwi('scf.pwi', prefix='xyz', occupations='smearing',
            smearing='f-d', degauss=0.03, ecutwfc=40.0)
        pw = elphmod.bravais.read_pwi('scf.pwi')
        a = elphmod.bravais.primitives(bohr=True, **pw)
        close(a, elph.ph.a, 'lattice vectors', tol=1e-6)
        equal(list(pw['at']), list(names), 'atoms')
        coords = pw['coords'] if 'coords' in pw else None
        r = np.array(pw['r'])
        if coords == 'crystal':
            r = r @ a
        close(r, elph.ph.r + u.reshape((-1, 3)), 'positions', tol=1e-6)
        if math.prod(nk) == 1:
            equal(pw['ktyp'], 'gamma', 'k points')
        else:
            equal(pw['ktyp'], 'automatic', 'k points')
            equal(list(pw['k_points']), [*nk, 0, 0, 0], 'k points')
    elif what == 'save':
        for which in 'dense', 'sparse':
            if which == 'sparse':
                d = elphmod.md.Driver(elph.supercell(2, 1, 1, sparse=True),
                    kT=0.03, f='fd', n=2.2)
                d.free_energy(np.tile(u, 2), show=False)
            state = observe(d)
            d.save('driver')
            e = elphmod.md.Driver.load('driver')
            compare(observe(e), state, 'loaded driver', tol=1e-9)
            compare(observe(d), state, 'saved driver', tol=1e-9)
            e.diagonalize()
            compare(observe(e), state, 'loaded driver', tol=1e-9)
    elif what == 'random':
        d.random_displacements(0.02)
        x = d.u.copy()
        close(x.reshape((-1, 3)).sum(axis=0), np.zeros(3), 'center of mass',
            tol=1e-12)
        require(abs(x).max() <= 0.04, 'amplitude')
        d.u = x + np.tile([0.1, 0.2, 0.3], nat)
        d.center_mass()
        close(d.u, x, 'centered displacements', tol=1e-12)
    ctx.outcome((nat, size, nk, nq, what, displaced), nat > 1)

# --- histories

def observe(d, fresh=False):
    """Everything a driver reports (diagonalized if fresh)."""

    out = dict(u=d.u.copy(), mu=d.mu, n=d.n, kT=d.kT)
    out['E'] = d.free_energy(show=False)
    out['F'] = d.jacobian(show=False)
    out['C'] = d.hessian(gamma_only=False)
    out['rho'] = d.density()
    return out

def compare(a, b, what, tol=1e-8):
    for key in b:
        close(a[key], b[key], '%s: %s' % (what, key), tol=tol)

def content(elph, sparse):
    if sparse:
        return digest([g.toarray() for g in elph.gs] + [elph.el.Hs.toarray(),
            elph.ph.Ds.toarray(), elph.ph.r, elph.ph.M])
    return digest([elph.data, elph.el.data, elph.ph.data, elph.el.R, elph.ph.R,
        elph.ph.r, elph.ph.M, elph.el.rydberg, elph.ph.divide_mass])

def ops_all(sparse):
    return 'xycCmhHasepdwzkn'

def apply(op, d, elph, state):
    """Perform operation on driver and on description of its state."""

    nat = d.elph.ph.nat
    if op == 'x':
        state['u'] = displacement(nat, 'x')
        d.u = state['u'].copy()
        d.diagonalize()
    elif op == 'y':
        state['u'] = displacement(nat, 'y')
        d.free_energy(state['u'].copy(), show=False)
    elif op == 'c':
        state['u'] = -displacement(nat, 'c')
        d(None, d.elph.ph.r + state['u'].reshape((-1, 3)))
    elif op == 'C':
        d.center_mass()
    elif op == 'm':
        d.find_Fermi_level() # energies are relative to chemical potential:
        d.diagonalize()
    elif op == 'h':
        d.hessian()
    elif op == 'H':
        d.hessian(gamma_only=False, kT=0.1)
    elif op == 'a':
        d.hessian(gamma_only=False, apply_asr_simple=True, fildyn='fildyn')
    elif op == 's':
        d.superconductivity(kT=0.05)
    elif op == 'e':
        d.electrons()
    elif op == 'p':
        if not d.sparse:
            d.phonons()
    elif op == 'd':
        d.density()
        d.jacobian(show=False)
    elif op == 'w':
        d.save('history')
        d = elphmod.md.Driver.load('history')
    elif op == 'z':
        d.to_xyz('history.xyz')
        d.u[:] = 0.0
        d.from_xyz('history.xyz')
        d.diagonalize()
    elif op == 'k':
        state['kT'] *= 1.3
        d.kT *= 1.3
        d.diagonalize()
    elif op == 'n':
        state['n'] += 0.2
        d.n += 0.2
        d.diagonalize()
    return d

@check.family
def history(ctx, sparse, prefix, depth, f):
    """No trace of earlier operations."""

    elph = parts(2, 2, (1, 0, 0))
    if sparse == 'dense':
        make = lambda: elphmod.md.Driver(elph, kT=0.03, f=SMEARINGS[f], n=1.2,
            nk=(2,), nq=(2,))
        model = elph
    elif sparse == 'sparse':
        model = elph.supercell(2, 1, 1, sparse=True)
        make = lambda: elphmod.md.Driver(model, kT=0.03, f=SMEARINGS[f],
            n=2.4)
    else:
        model = elph
        make = lambda: elphmod.md.Driver(elph, kT=0.03, f=SMEARINGS[f], n=1.2,
            nk=(2,), nq=(2,), supercell=(2, 1, 1))
    before = content(model, sparse == 'sparse')
    pristine = make()
    oracle = {}

    def expected(state, mu):
        """Fresh driver with parameters set before anything else."""

        key = digest([state['u'], state['kT'], state['n']])
        if key not in oracle:
            d = make()
            d.kT, d.n = state['kT'], state['n']
            d.free_energy(state['u'].copy(), show=False)
            oracle[key] = observe(d)
            ctx.states += 1
        return oracle[key]

    for rest in itertools.product(ops_all(sparse), repeat=depth - len(prefix)):
        ops = list(prefix) + list(rest)
        d = make()
        state = dict(u=d.u.copy(), kT=d.kT, n=d.n)
        for op in ops:
            d = apply(op, d, model, state)
            ctx.transitions += 1
        # reading results in different order must not matter:
        what = 'after ' + ' '.join(ops)
        now = dict(F=d.jacobian(show=False), C=d.hessian(gamma_only=False),
            rho=d.density())
        want = expected(state, d.mu)
        # chemical potential is converged up to tolerance for particle number
        compare(now, {k: want[k] for k in now}, what, tol=3e-4)
        compare(observe(d), want, what, tol=3e-4)
        close(d.density().sum(), state['n'], what + ': particle number',
            tol=1e-4)
        equal(content(model, sparse == 'sparse'), before,
            what + ': given model')
        ctx.traces += 1
    compare(observe(pristine), observe(make()), 'other driver', tol=1e-9)
    ctx.outcome((sparse, prefix, depth, f))

# --- excited carriers

@check.family
def excited(ctx, nat, nk, nx, kT, n):
    """Two chemical potentials for excited carriers."""

    elph = parts(nat, 2, tuple(int(x > 1) for x in nk))
    elph.el.data[np.all(elph.el.R == 0, axis=1)] += np.diag([-0.4, 0.6])
    f = elphmod.occupations.two_fermi_dirac
    d = elphmod.md.Driver(elph, kT=kT, f=f, n=n, nx=nx, nk=nk)
    ctx.outcome((nat, nk, nx, kT, n))
    for seed in 1, 2:
        u = displacement(nat, seed, 0.1) if nat > 1 else np.zeros(3)
        E = d.free_energy(u.copy(), show=False)
        nv = n // 2
        occ = d.f(d.e / kT)
        Nk = math.prod(nk)
        close(2 * occ[..., :nv].sum() / Nk, n - nx, 'lower bands', tol=1e-4)
        close(2 * occ[..., nv:].sum() / Nk, nx, 'upper bands', tol=1e-4)
        h = 1e-4
        jac = d.jacobian(show=False)
        C = d.hessian()
        num, numC = [], []
        P = np.eye(3 * nat) - np.tile(np.eye(3), (nat, nat)) / nat
        for x in range(3 * nat):
            s = P[x] * h
            a = d.free_energy(u + s, show=False)
            ja = d.jacobian(show=False)
            b = d.free_energy(u - s, show=False)
            jb = d.jacobian(show=False)
            num.append((a - b) / (2 * h))
            numC.append((ja - jb) / (2 * h))
        close(P @ jac, num, 'forces', tol=1e-4)

@check.family
def two_drivers(ctx, f, order):
    """Drivers do not influence each other."""

    elph = parts(2, 2, (1, 0, 0))
    elph.el.data[np.all(elph.el.R == 0, axis=1)] += np.diag([-0.4, 0.6])
    func = elphmod.occupations.two_fermi_dirac if f == '2fd' else SMEARINGS[f]
    kw = dict(n=2, nk=(2,), nq=(2,), f=func)
    make = (lambda: elphmod.md.Driver(elph, kT=0.03, nx=0.2, **kw),
        lambda: elphmod.md.Driver(elph, kT=0.05, nx=0.5, **kw))
    u = [displacement(2, 'a'), displacement(2, 'b')]
    want = []
    for m, x in zip(make, u):
        d = m()
        d.free_energy(x.copy(), show=False)
        want.append((d.jacobian(show=False), d.hessian(gamma_only=False),
            d.density()))
    ds = [m() for m in make]
    for i in order:
        ds[i].free_energy(u[i].copy(), show=False)
        ctx.transitions += 1
    for i in set(order):
        got = (ds[i].jacobian(show=False), ds[i].hessian(gamma_only=False),
            ds[i].density())
        for g, w, what in zip(got, want[i], ('forces', 'Hessian', 'density')):
            close(g, w, '%s of driver %d' % (what, i), tol=1e-3)
    ctx.outcome((f, order))

@check.family
def picture(ctx, ops, basis, label):
    """Plots show current structure, displacements, and charges."""

    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_hex
    from mpl_toolkits.mplot3d import proj3d

    nat = 2
    elph = parts(nat, 2, (1, 0, 0))
    elph.ph.atom_order = ['Ta', 'S']
    d = elphmod.md.Driver(elph, kT=0.03, f='fd', n=1.2, nk=(2,))
    d.pause = 1e-3
    d.basis = [[0], [1]] if basis else None
    u = np.zeros(3 * nat)
    size, scale, live = 100.0, 10.0, False
    path = [displacement(nat, i) for i in 'ab']
    d.u = path[0]
    d.to_xyz('path.xyz')
    d.u = path[1]
    d.to_xyz('path.xyz', append=True)
    d.u = u.copy()
    frames = []

    def content():
        """What is seen."""

        d.axes.figure.canvas.draw() # sorts atoms by depth
        pos = np.transpose(d.scatter._offsets3d)
        xy = np.transpose(proj3d.proj_transform(*pos.T, d.axes.get_proj())[:2])
        order = [int(np.argmin([abs(x - y).max() for y in
            d.scatter.get_offsets()])) for x in xy]
        equal(sorted(order), list(range(nat)), 'number of atoms')
        return (pos, np.array([x for x in d.quiver._segments3d]),
            np.resize(d.scatter.get_sizes(), nat)[order],
            [to_hex(c) for c in np.resize(d.scatter.get_facecolor(),
                (nat, 4))[order]])

    def compare(seen, u, rho, what):
        pos, arrows, sizes, colors = seen
        want = elph.ph.r + u.reshape((-1, 3))
        close(pos, want, 'atoms %s' % what)
        if any(u):
            for i in range(nat):
                shaft = [want[i], want[i] + scale * u[3 * i:3 * i + 3]]
                require(min(abs(x - y).max() for x in arrows for y in (shaft,
                    shaft[::-1])) < 1e-8, 'arrow missing %s', what)
                equal(sum(abs(x - shaft[1]).max() < 1e-8 for y in arrows
                    for x in y), 3, 'lines at tip of arrow %s' % what)
            equal(len(arrows), 3 * nat, 'lines %s' % what) # shaft and head
        equal(colors, ['#%02x%02x%02x' % elphmod.misc.colors[X]
            for X in elph.ph.atom_order], 'colors %s' % what)
        if rho is not None or not basis:
            close(sizes, size * (rho / rho.max() if basis
                else np.ones(nat)), 'sizes %s' % what)

    if hasattr(d, 'axes'):
        raise Violation('axes shown before plotting')
    pause = plt.pause
    plt.pause = lambda t: frames.append(content())
    try:
        for n, op in enumerate(ops):
            what = 'after %s' % ', '.join(ops[:n + 1])
            frames.clear()
            rho = d.density_per_atom() if basis else None
            if op == 'save':
                d.plot('plot.png', label=label)
                require(os.path.getsize('plot.png') > 0, 'no image')
            elif op == 'live':
                live = True
                d.plot(interactive=True, label=label)
            elif op == 'stop':
                live = False
                d.plot('plot.png', interactive=False, size=size)
            elif op == 'zoom':
                size, scale = size * 1.5, scale * 0.7
                d.plot('plot.png', size=size, scale=scale, elev=20, azim=30)
                equal((d.axes.elev, d.axes.azim), (20, 30), 'view')
            elif op == 'move':
                u = displacement(nat, n)
                d.free_energy(u.copy(), show=False)
                rho = d.density_per_atom() if basis else None
                if live:
                    # charges on display belong to this structure:
                    equal(len(frames), 1, 'frames shown %s' % what)
                    compare(frames[0], u, rho, what)
            elif op == 'read':
                d.from_xyz('path.xyz')
                u = path[1]
                if live:
                    equal(len(frames), 2, 'frames shown %s' % what)
                    for v, seen in zip(path, frames):
                        compare(seen, v, None, what)
            if op in ('save', 'live', 'stop', 'zoom'):
                equal(d.interactive, live, 'interactive %s' % what)
                compare(content(), u, rho, what)
                close(d.size, size, 'size')
                equal([t.get_text() for t in d.axes.texts],
                    ['0', '1'] if label and op in ('save', 'live') else [],
                    'labels')
            ctx.transitions += 1
    finally:
        plt.pause = pause
        plt.close('all')
    ctx.outcome((ops, basis, label))

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'
    for depth in range(1, 5 if thorough else 4):
        for ops in itertools.product(['save', 'live', 'stop', 'zoom', 'move',
                'read'], repeat=depth):
            if 'move' not in ops and 'read' not in ops and depth > 1:
                continue
            for basis in False, True:
                yield 'picture', dict(ops=ops, basis=basis,
                    label=len(ops[0]) % 2 == len(ops[-1]) % 3)

    for nat, size in (1, 1), (2, 2), (2, 1), (2, 4), (3, 3):
        for nmax, nk in (((1, 0, 0), (3,)), ((1, 1, 0), (2, 2)),
                ((0, 1, 1), (1, 2, 3)), ((0, 0, 0), (1,))):
            if nat * size > 4 and math.prod(nk) > 4:
                continue
            for f in SMEARINGS:
                for unscreen, complex_ in itertools.product((False, True),
                        repeat=2):
                    if complex_ and f not in ('fd', 'mv'):
                        continue
                    yield 'physics', dict(nat=nat, size=size, nmax=nmax, nk=nk,
                        f=f, kT=0.04 if f == 'fd' else 0.08,
                        n=1.2 if size > 1 else 0.9,
                        unscreen=unscreen, complex_=complex_)
    for nat, size in (1, 1), (2, 2), (2, 3):
        for N, mult in (((1, 1, 1), (1, 1, 1)), ((2, 1, 1), (1, 1, 1)),
                ((3, 1, 1), (1, 1, 1)), ((2, 2, 1), (1, 1, 1)),
                ((1, 2, 2), (1, 1, 1)), ((2, 1, 1), (2, 1, 1)),
                ((1, 2, 1), (2, 1, 2)), ((1, 1, 1), (2, 2, 1))):
            for route in 'dense', 'sparse', 'option':
                if route != 'dense' and math.prod(mult) > 1:
                    continue
                for f, displaced in itertools.product(('fd', 'mp'),
                        (False, True)):
                    yield 'folding', dict(nat=nat, size=size,
                        nmax=tuple(int(x * y > 1) for x, y in zip(N, mult)),
                        N=N, mult=mult, f=f, kT=0.04, n=0.9,
                        displaced=displaced, route=route)
                    if nat > 1 and f == 'fd':
                        yield 'folding', dict(nat=nat, size=size,
                            nmax=tuple(int(x * y > 1) for x, y in zip(N, mult)),
                            N=N, mult=mult, f=f, kT=0.04, n=0.9,
                            displaced=displaced, route=route, polar=True)
    for nat in 1, 2:
        for N in (2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 1, 2), (2, 2, 2):
            for f in SMEARINGS:
                yield 'frozen', dict(nat=nat, N=N, f=f,
                    kT=0.04 if f == 'fd' else 0.08, n=0.8)
    for nat, size in (1, 1), (2, 2), (3, 3):
        for nk, nq in (((1, 1, 1), (1, 1, 1)), ((2, 1, 1), (2, 1, 1)),
                ((4, 2, 1), (2, 1, 1)), ((1, 2, 3), (1, 2, 3))):
            for displaced in False, True:
                for what in 'electrons', 'phonons', 'files', 'save', 'random':
                    if nat == 3 and math.prod(nk) > 4:
                        continue
                    for polar in (False, True) if (nat > 1
                            and what == 'phonons') else (False,):
                        yield 'output', dict(nat=nat, size=size, nk=nk, nq=nq,
                            what=what, displaced=displaced, polar=polar)

    depth = 4 if thorough else 3
    for sparse in 'dense', 'sparse', 'option':
        for prefix in itertools.product(ops_all(sparse), repeat=2):
            yield 'history', dict(sparse=sparse, prefix=''.join(prefix),
                depth=depth if sparse == 'dense' or thorough else 3, f='fd')
        for f in 'mv',:
            for prefix in ops_all(sparse):
                yield 'history', dict(sparse=sparse, prefix=prefix, depth=2,
                    f=f)
    for nat in 1, 2:
        for nk in (1, 1, 1), (2, 1, 1), (2, 2, 1):
            for nx in 0.1, 0.5:
                yield 'excited', dict(nat=nat, nk=nk, nx=nx, kT=0.05, n=2)
    for f in 'fd', '2fd':
        for order in [0], [1], [0, 1], [1, 0], [0, 1, 0]:
            yield 'two_drivers', dict(f=f, order=order)

check.main()
