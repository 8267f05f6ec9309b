"""C27: characters, spectral functions, and single-band projections."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.elel, elphmod.ph

from mc import gen
from mc.common import Check, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C27', 'exploration',
    rule='all combinations of lattice angles, wave vectors (zone center, '
    'high-symmetry, general, outside of the first zone) and numbers of atoms; '
    'broadenings, frequency meshes, shapes of dynamical matrices; mesh sizes, '
    'numbers of orbitals and bands, kinds of interaction; oracles: Cartesian '
    'geometry, eigenvalues, explicit sums over orbitals with independent '
    'eigenvectors; trivial: zone center, one orbital')

POINTS = [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1), (-1, 2), (3, 0), (0.3, 0.1),
    (-0.7, 1.9), (1e-3, 0), (2, 2)]

def directions(angle):
    """Reciprocal vectors enclosing given angle, first lattice vector = x."""

    c = math.cos(math.radians(180 - angle))
    s = math.sin(math.radians(180 - angle))
    a = np.array([[1.0, 0.0], [c, s]])
    return np.linalg.inv(a).T

@check.family
def characters(ctx, angle, nat, bands):
    """Longitudinal, transverse, and out-of-plane character of modes."""

    B = directions(angle)
    assert abs(B[0] @ B[1] / np.linalg.norm(B[0]) / np.linalg.norm(B[1])
        - math.cos(math.radians(angle))) < 1e-12

    path = np.array(POINTS, dtype=float)
    e = np.empty((len(path), 3 * nat, 3 * nat), dtype=complex)
    for n, q in enumerate(path):
        if bands == 'pure':
            k = q @ B
            k = k / np.linalg.norm(k) if k.any() else np.array([1.0, 0.0])
            one = np.array([[*k, 0], [-k[1], k[0], 0], [0, 0, 1]]).T
            e[n] = np.kron(np.linalg.qr(gen.cplx((nat, nat), n))[0], one)
        else:
            e[n] = np.linalg.qr(gen.cplx((3 * nat, 3 * nat), n, nat))[0]

    mode = elphmod.ph.polarization(e, path, angle=angle)
    equal(mode.shape, (len(path), 3 * nat, 3), 'shape')
    close(mode.sum(axis=2), np.ones(mode.shape[:2]), 'sum of characters',
        tol=1e-10)
    trace = mode.sum(axis=1)
    close(trace[:, 2], np.full(len(path), float(nat)), 'sum over modes',
        tol=1e-10)
    close(trace[:, 0] + trace[:, 1], np.full(len(path), 2.0 * nat),
        'in-plane', tol=1e-10)

    for n, q in enumerate(path):
        k = q @ B
        u = e[n].reshape((nat, 3, 3 * nat))
        Z = (abs(u[:, 2]) ** 2).sum(axis=0)
        if k.any():
            k = k / np.linalg.norm(k)
            L = (abs(np.einsum('x,nxm->nm', k, u[:, :2])) ** 2).sum(axis=0)
        else:
            L = (1 - Z) / 2
        close(mode[n].T, [L, 1 - Z - L, Z], 'characters for %s' % (q,),
            tol=1e-10)
        if bands == 'pure' and k.any():
            close(mode[n], np.tile(np.eye(3), (nat, 1)), 'pure', tol=1e-10)

        # single point and other order of points and bands
        order = list(range(3 * nat))[::-1]
        close(elphmod.ph.polarization(e[n:n + 1, :, order], path[n:n + 1],
            angle=angle)[0], mode[n, order], 'selection', tol=1e-12)

    # direction does not depend on length of wave vector
    scaled = elphmod.ph.polarization(e, path * 2 * np.pi, angle=angle)
    close(scaled, mode, 'length of wave vector', tol=1e-10)
    ctx.outcome((angle, nat, bands, mode), nontrivial=True)

@check.family
def spectral(ctx, lead, modes, nw, eta, kind):
    """Phonon spectral function."""

    omega = np.linspace(0.0, 1.5, nw) if nw > 1 else np.array([0.4])
    shape = (*lead, modes, modes)

    D = gen.cplx((*shape, nw), 'D', kind)
    if kind == 'static':
        H = gen.cplx(shape, 'H')
        H = H @ H.conj().swapaxes(-1, -2) / (4 * modes) + 0.2 * np.eye(modes)
        D = np.repeat(H[..., np.newaxis], nw, axis=-1)

    A = elphmod.ph.spectral_function(D, omega, eta)
    equal(A.shape, (nw, *lead), 'shape')

    for w in range(nw):
        z = np.linalg.eigvals(D[..., w]) - (omega[w] + 1j * eta) ** 2
        close(A[w], 2 * omega[w] / np.pi * (1 / z).sum(axis=-1).imag,
            'spectral function', tol=1e-9, rel=1e-9)

    if kind == 'static':
        require(np.all(A > -1e-12), 'negative spectral function')
        w2 = np.linalg.eigvalsh(H)
        top = 40.0
        x = np.concatenate([np.linspace(0, 3, 6001), np.linspace(3, top,
            2001)[1:]])
        y = elphmod.ph.spectral_function(np.repeat(H[..., np.newaxis], len(x),
            axis=-1), x, 0.01)
        total = ((y[1:] + y[:-1]) / 2 * np.diff(x).reshape((-1,) + (1,)
            * len(lead))).sum(axis=0)
        close(total, modes + np.zeros(lead), 'normalization', tol=0.03 * modes)
    ctx.outcome((lead, modes, nw, eta, kind, A), nontrivial=nw > 1)

@check.family
def projection(ctx, no, nq, nqC, nk, dd):
    """Interaction in basis of Bloch states of single band."""

    m = gen.el_model(elphmod, size=no, nmax=(2, 1, 0), seed=no)
    U = gen.cplx((nqC, nqC, no, no, no, no), 'U', nqC)

    k = list(itertools.product(range(nk), repeat=2))
    psi = {}
    for x in k:
        H = m.H(*[2 * np.pi * c / nk for c in x], 0)
        e, v = np.linalg.eigh(H)
        require(no == 1 or np.diff(e).min() > 1e-4, 'degenerate model')
        psi[x] = v

    irr = sorted(elphmod.bravais.irreducibles(nq))
    add = lambda x, q: tuple((a + b * (nk // nq)) % nk for a, b in zip(x, q))

    for band in range(no):
        for share in (False, True):
            V = elphmod.elel.orbital2band(U, m.H, nq, nk, band=band, dd=dd,
                share=share)
            equal(np.shape(V), (len(irr),) + (nk,) * 4, 'shape')
        for iq, q in enumerate(irr):
            u = U[q[0] * (nqC // nq), q[1] * (nqC // nq)]
            if dd:
                keep = np.einsum('ab,cd->abcd', np.eye(no), np.eye(no))
                u = u * keep
            left = {x: np.einsum('a,b->ab', psi[add(x, q)][:, band],
                psi[x][:, band].conj()) for x in k}
            right = {x: np.einsum('c,d->cd', psi[x][:, band],
                psi[add(x, q)][:, band].conj()) for x in k}
            want = np.array([[np.einsum('abcd,ab,cd', u, left[x], right[y])
                for y in k] for x in k])
            got = V[iq].reshape(want.shape)

            # phases of Bloch states are arbitrary in general
            close(abs(got), abs(want), 'modulus', tol=1e-10)
            close(np.diag(got), np.diag(want), 'same states', tol=1e-10)
            if q == (0, 0):
                close(got, want, 'zone center', tol=1e-10)
            n = len(k)
            for i, j, l in itertools.product(range(0, n, 2), range(n), (0, 1)):
                close(got[i, j] * got[j, l % n] * got[l % n, i],
                    want[i, j] * want[j, l % n] * want[l % n, i],
                    'relative phases', tol=1e-10)
    ctx.outcome((no, nq, nqC, nk, dd, V), nontrivial=no > 1 and nq > 1)

@check.cases
def enumerate_cases(tier):
    deep = tier != 'quick'

    for angle in (60, 90, 120):
        for nat in range(1, 5 if deep else 4):
            for bands in ('pure', 'mixed'):
                yield 'characters', dict(angle=angle, nat=nat, bands=bands)

    for lead in ((), (1,), (3,), (2, 2)):
        for modes in (1, 2, 3, 6):
            for nw in (1, 2, 7):
                for eta in (0.01, 0.3):
                    for kind in ('static', 'dynamic'):
                        yield 'spectral', dict(lead=lead, modes=modes, nw=nw,
                            eta=eta, kind=kind)

    for no in (1, 2, 3):
        for nq in (1, 2, 3) + (4,) * deep:
            for f in (1, 2):
                for g in (1, 2) if nq < 3 or deep else (1,):
                    for dd in (False, True):
                        yield 'projection', dict(no=no, nq=nq, nqC=nq * f,
                            nk=nq * g, dd=dd)

check.main()
