"""C16: diagrams."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.diagrams as dia
import elphmod.occupations as occ

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C16', 'exploration',
    rule='all combinations of options on small meshes in one to three '
    'dimensions with generic and degenerate energies, all momentum transfers; '
    'oracle: literal sums over states; trivial: vanishing result')

MESHES = [(3,), (2, 3), (3, 2), (2, 1, 2), (1, 1), (3, 3)]

def energies(nk, nbnd, kind, seed=0):
    e = gen.real((*nk, nbnd), seed, 'energies') * 0.2
    if kind == 'degenerate':
        e = np.round(e * 10) / 10
    elif kind == 'flat':
        e[...] = 0.05
    return e

def points(nk):
    """All mesh points, also equivalent ones."""
    ks = list(itertools.product(*map(range, nk)))
    return ks

def angle(q, nk):
    return tuple(2 * math.pi * i / n for i, n in zip(q, nk))

def plus(k, q, nk):
    return tuple((i + j) % n for i, j, n in zip(k, q, nk))

F = dict(fd=occ.fermi_dirac, gauss=occ.gauss, mv=occ.marzari_vanderbilt,
    lorentz=occ.lorentz)

def occupy(name, x):
    return float(F[name](float(x)))

def dd(name, a, b, kT):
    """Divided difference of occupations."""
    if abs(a - b) < 1e-9:
        return -float(F[name].delta(a / kT)) / kT
    return (occupy(name, a / kT) - occupy(name, b / kT)) / (a - b)

def ddd(name, a, b, c, kT):
    """Second divided difference."""
    a, b, c = sorted((a, b, c))
    if abs(a - c) < 1e-9:
        return -0.5 * float(F[name].delta_prime(a / kT)) / kT ** 2
    return (dd(name, b, c, kT) - dd(name, a, b, kT)) / (c - a)

OTHER = [(1, 0, 0), (-1, 0, 2), (0, 1, -1)]

def shifted(q, nk, n):
    """Equivalent point outside the first zone."""
    return tuple(x + 2 * math.pi * y for x, y in zip(q, OTHER[n % 3]))

@check.family
def bubbles(ctx, nk, kind, kT, occupations):
    """Susceptibility and polarization."""

    N = np.prod(nk)

    if len(nk) == 2 and nk[0] == nk[1]:
        e = energies(nk, 1, kind)[..., 0]
        e0 = e.copy()
        for eta in 1e-10, 0.03:
            chi = dia.susceptibility(e, kT=kT, eta=eta,
                occupations=occupations)
            for q in points(nk):
                if any(q):
                    want = 0.0
                    for k in points(nk):
                        a, b = e[plus(k, q, nk)], e[k]
                        want += (occupy(occupations, a / kT) - occupy(
                            occupations, b / kT)) * (a - b) / ((a - b) ** 2
                            + eta ** 2) if a != b else 0.0
                else:
                    want = sum(dd(occupations, e[k], e[k], kT)
                        for k in points(nk))
                for Q in angle(q, nk), shifted(angle(q, nk), nk, 1):
                    close(chi(*Q), 2 / N * want, 'susceptibility at %s' % (q,))
                ctx.outcome((e, eta, q, want), nontrivial=want != 0)
        equal(e.tolist(), e0.tolist(), 'energies modified')

    for nbnd, norb in (1, 1), (2, 2), (2, 3), (1, 2):
        e = energies(nk, nbnd, kind)
        U = gen.cplx((*nk, norb, nbnd), 3)
        e0, U0 = e.copy(), U.copy()

        subs = [None, e > 0, np.ones(e.shape, dtype=bool)]

        for sub in subs:
            Pi = dia.polarization(e, U, kT=kT, subspace=sub,
                occupations=occupations)
            for n, q in enumerate(points(nk)):
                want = np.zeros((norb, norb), dtype=complex)
                for k in points(nk):
                    kq = plus(k, q, nk)
                    for b in range(nbnd):
                        for c in range(nbnd):
                            if sub is not None and sub[kq][b] and sub[k][c]:
                                continue
                            v = U[kq][:, b] * U[k][:, c].conj()
                            want += np.outer(v, v.conj()) * dd(occupations,
                                e[kq][b], e[k][c], kT)
                want *= 2 / N
                for Q in angle(q, nk), shifted(angle(q, nk), nk, n):
                    close(Pi(*Q), want, 'polarization at %s' % (q,))
                ctx.outcome((nbnd, norb, sub is None, q, want),
                    nontrivial=np.any(want))

        equal(e.tolist(), e0.tolist(), 'energies modified')
        equal(U.tolist(), U0.tolist(), 'eigenvectors modified')

@check.family
def matsubara(ctx, nk, kind, kT, nmats, height):
    N = nk * nk
    e = energies((nk, nk), 1, kind)[..., 0]
    nu = [(2 * n + 1) * math.pi * kT for n in range(nmats)]
    Delta = [-2j * height * math.atan(2 * 0.7 / v) for v in nu]

    def pair(a, b):
        s = sum(((1 / (1j * v - a - D)) * (1 / (1j * v - b - D))).real
            + 1 / v ** 2 for v, D in zip(nu, Delta))
        return 4 * kT * s - 1 / (2 * kT)

    chi = dia.susceptibility2(e, kT=kT, nmats=nmats, hyb_width=0.7,
        hyb_height=height)

    qs = [angle(q, (nk, nk)) for q in points((nk, nk))]
    g2 = gen.real((len(qs), 2, nk, nk), 4)

    for q in qs, np.array(qs):
        Pi = dia.phonon_self_energy2(q, e, g2, kT=kT, nmats=nmats,
            hyb_width=0.7, hyb_height=height)

        for i, q in enumerate(points((nk, nk))):
            want = {k: pair(e[k], e[plus(k, q, (nk, nk))])
                for k in points((nk, nk))}
            close(chi(*qs[i]), sum(want.values()) / N, 'Green functions')
            for x in range(2):
                close(Pi[i, x], sum(g2[i, x][k] * want[k] for k in want) / N,
                    'Green functions and coupling')
            ctx.outcome((nk, kT, nmats, height, q, chi(*qs[i])))

    if not height and nmats >= 1000:
        ref = dia.susceptibility(e, kT=kT)
        for q in qs:
            if kind != 'degenerate' and kind != 'flat':
                close(chi(*q), ref(*q), 'limit of many frequencies', tol=1e-4,
                    rel=1e-3)

@check.family
def self_energy(ctx, nk, nbnd, kind, coupling, kT, occupations):
    N = np.prod(nk)
    nk = tuple(nk)
    nu = 2
    e = energies(nk, nbnd, kind)
    ks = points(nk)
    qs = [angle(q, nk) for q in ks]
    # equivalent points and other order
    qs = [shifted(q, nk, n)[:len(nk)] if n % 3 == 1 else q
        for n, q in enumerate(qs)]

    shape = (len(qs), nu, *nk, nbnd, nbnd)
    g2 = gL = gR = None

    if coupling == 'g2':
        g2 = gen.real(shape, 1)
    elif coupling == 'g2 complex':
        g2 = gen.cplx(shape, 1)
    elif coupling == 'g real':
        gL = gen.real(shape, 1)
    elif coupling in ('g', 'g diagonal', 'g U'):
        gL = gen.cplx(shape, 1)
    elif coupling in ('gG', 'gG asymmetric', 'gG diagonal',
            'gG asymmetric U'):
        gL, gR = gen.cplx(shape, 1), gen.cplx(shape, 2)

    options = {}
    if 'diagonal' in coupling:
        options['diagonal'] = True
    if 'asymmetric' in coupling:
        options['symmetrize'] = False
    U = None
    if coupling.endswith('U'):
        U = options['U'] = gen.real((nbnd, nbnd), 7)

    vector = gL is None
    modes = 1 if coupling == 'none' else nu
    phshape = (modes,) if vector else (modes, modes)

    def weight(iq, x, k, m, n):
        at = (iq,)
        if vector:
            return 1.0 if g2 is None else g2[(iq, x[0]) + k + (m, n)]
        l = lambda g, x: g[(iq, x) + k + (m, n)]
        if 'diagonal' in coupling and x[0] != x[1]:
            return 0.0
        G = gL if gR is None else gR
        w = np.conj(l(gL, x[0])) * l(G, x[1])
        if gR is not None and options.get('symmetrize', True):
            w = (w + np.conj(l(G, x[0])) * l(gL, x[1])) / 2
        return w

    def window(x, D, T):
        h = F['gauss']
        return float(2 - h((x - D) / T) - h((-x - D) / T))

    def dwindow(x, D, T):
        h = F['gauss'].delta
        return float(h((x - D) / T) + h((-x - D) / T)) / -T

    for omega in (0.0, 0.03 + 0.01j, np.array([0.0]), np.array([0.1 + 0.05j,
            0.0]), np.array([[0.02j, -0.1 + 0.01j]])):
        for Delta, Delta_diff in (None, False), (0.08, False), (0.05, True):
            if Delta is not None and np.ndim(omega) > 1:
                continue
            for fluctuations in False, True:
                got = dia.phonon_self_energy(qs, e, g2=g2, kT=kT, omega=omega,
                    occupations=occupations, fluctuations=fluctuations,
                    Delta=Delta, Delta_diff=Delta_diff, Delta_kT=0.03, g=gL,
                    G=gR, **options)

                if fluctuations:
                    got, integrand = got

                oshape = np.shape(omega)
                equal(got.shape, (len(qs), *phshape, *oshape),
                    'shape of self-energy')
                if fluctuations:
                    equal(integrand.shape, (len(qs), *phshape, *oshape, *nk,
                        nbnd, nbnd), 'shape of integrand')

                for iq, q in enumerate(ks):
                    bare = np.zeros((*oshape, *nk, nbnd, nbnd), dtype=complex)
                    for k in ks:
                        kq = plus(k, q, nk)
                        for m in range(nbnd):
                            for n in range(nbnd):
                                a, b = e[k][n], e[kq][m]
                                env = 1.0
                                if Delta is not None:
                                    ta, tb = (window(y, Delta, 0.03)
                                        for y in (a, b))
                                    env = ta * tb
                                    if Delta_diff:
                                        env = (ta * dwindow(b, Delta, 0.03)
                                            + tb * dwindow(a, Delta, 0.03))
                                for o in np.ndindex(*oshape):
                                    w = np.array(omega)[o]
                                    if w == 0:
                                        r = dd(occupations, a, b, kT)
                                    else:
                                        r = (occupy(occupations, a / kT)
                                            - occupy(occupations, b / kT)) / (
                                            a - b + w)
                                    bare[o + k + (m, n)] = r * env

                    for x in np.ndindex(*phshape):
                        w = np.zeros((*nk, nbnd, nbnd), dtype=complex)
                        for k in ks:
                            for m in range(nbnd):
                                for n in range(nbnd):
                                    w[k + (m, n)] = weight(iq, x, k, m, n)
                        p = bare * w
                        axes = tuple(range(-len(nk) - 2, 0))
                        want = 2 / N * p.sum(axis=axes)

                        if U is not None:
                            kaxes = axes[:len(nk)]
                            chi = 2 / N * bare.sum(axis=kaxes)
                            G = gL if gR is None else gR
                            L = 2 / N * (gL[iq, x[0]].conj() * bare).sum(
                                axis=kaxes)
                            R = 2 / N * (G[iq, x[1]] * bare).sum(axis=kaxes)
                            want = want + (L * U / (1 - chi * U) * R).sum(
                                axis=(-2, -1))

                        what = 'self-energy at %s for %s' % (q, x)
                        close(got[(iq,) + x], want, what, tol=1e-8)
                        if fluctuations:
                            close(integrand[(iq,) + x], 2 * p,
                                'integrand of ' + what, tol=1e-8)
                ctx.outcome((coupling, kT, omega, Delta, Delta_diff, got),
                    nontrivial=np.any(got))

@check.family
def averages(ctx, nk, nbnd, kind, kT, occupations):
    """Fermi-surface averages and shift of chemical potential."""

    nk = tuple(nk)
    N = np.prod(nk)
    e = energies(nk, nbnd, kind)
    ks = points(nk)
    qs = [angle(q, nk) for q in ks]
    delta = {k: [float(F[occupations].delta(x / kT)) / kT for x in e[k]]
        for k in ks}

    for g2 in (None, gen.real((len(qs), 2, *nk, nbnd, nbnd), 1),
            gen.cplx((len(qs), 3, *nk, nbnd, nbnd), 1)):
        enum, deno = dia.double_fermi_surface_average(qs, e, g2, kT=kT,
            occupations=occupations)
        modes = 1 if g2 is None else g2.shape[1]
        equal((enum.shape, deno.shape), ((len(qs), modes), (len(qs),)), 'shape')

        for iq, q in enumerate(ks):
            a = np.zeros(modes, dtype=complex)
            b = 0.0
            for k in ks:
                kq = plus(k, q, nk)
                for m in range(nbnd):
                    for n in range(nbnd):
                        w = delta[kq][m] * delta[k][n]
                        b += w
                        a += w * (1.0 if g2 is None
                            else g2[(iq, slice(None)) + k + (m, n)])
            close(enum[iq], a, 'enumerator at %s' % (q,))
            close(deno[iq], b, 'denominator at %s' % (q,))
            ctx.outcome((enum, deno))

    g = gen.cplx((3, *nk, nbnd, nbnd), 2)
    got = dia.phonon_self_energy_fermi_shift(e, g, kT=kT,
        occupations=occupations)
    dos = sum(sum(v) for v in delta.values())
    avg = [sum(delta[k][n] * g[(x,) + k + (n, n)] for k in ks
        for n in range(nbnd)) / dos for x in range(3)]
    close(got, 2 / N * dos * np.outer(avg, avg), 'Fermi shift')
    ctx.outcome(got)

@check.family
def derivatives(ctx, nk, nbnd, seed, kT, occupations):
    """Diagrams are derivatives of the grand potential."""

    nk = tuple(nk)
    N = np.prod(nk)
    norb = nbnd
    H = gen.cplx((*nk, norb, norb), seed) * 0.2
    H = (H + np.moveaxis(H.conj(), -1, -2)) / 2
    V = gen.cplx((*nk, norb, norb), seed + 1) * 0.2
    V = (V + np.moveaxis(V.conj(), -1, -2)) / 2

    e, U = np.linalg.eigh(H)
    g = np.einsum('...am,...ab,...bn->...mn', U.conj(), V, U)

    def Omega(u):
        return dia.grand_potential(np.linalg.eigvalsh(H + u * V), kT=kT,
            occupations=occupations)

    # literal value
    x = e / kT
    f = F[occupations]
    if occupations == 'fd':
        want = -2 * kT / N * sum(np.logaddexp(0.0, -y) for y in x.flat)
    else:
        want = 2 * kT / N * sum(f(y) * y - f.entropy(y) for y in x.flat)
    close(Omega(0.0), want, 'grand potential', tol=1e-10)

    h = kT / 2
    W = {n: Omega(n * h) for n in range(-4, 5)}
    d1 = sum(c * (W[n] - W[-n]) for n, c in ((1, 4 / 5), (2, -1 / 5),
        (3, 4 / 105), (4, -1 / 280))) / h
    d2 = (-205 / 72 * W[0] + sum(c * (W[n] + W[-n]) for n, c in ((1, 8 / 5),
        (2, -1 / 5), (3, 8 / 315), (4, -1 / 560)))) / h ** 2
    d3 = sum(c * (W[n] - W[-n]) for n, c in ((1, -61 / 30), (2, 169 / 120),
        (3, -3 / 10), (4, 7 / 240))) / h ** 3

    for args, kwargs in (((e, g), {}), ((e, V), dict(U=U))):
        d = dia.first_order(*args, kT=kT, occupations=occupations, **kwargs)
        equal(np.shape(d), (1,), 'shape of first-order diagram')
        close(d[0], d1, 'first derivative', tol=1e-5)

    zero = (0,) * len(nk)
    d = dia.phonon_self_energy([zero], e, g=g[np.newaxis, np.newaxis], kT=kT,
        occupations=occupations)
    close(d[0, 0, 0], d2, 'second derivative', tol=1e-3, rel=1e-3)

    d = dia.triangle(zero, zero, e, g, g, g, kT=kT, occupations=occupations)
    close(d, d3, 'third derivative', tol=3e-2, rel=1e-2)

    several = dia.first_order(e, np.array([g, 2 * g, 1j * g]), kT=kT,
        occupations=occupations)
    close(several, several[0] * np.array([1, 2, 1j]), 'linearity')

    ctx.outcome((nk, nbnd, occupations, d1, d2, d3))

@check.family
def potential(ctx, x, occupations):
    """Grand potential for any ratio of energy and temperature."""

    f = F[occupations]
    for kT in 1e-4, 0.025, 1.0:
        e = np.array(x)[:, np.newaxis] * kT
        if occupations == 'fd':
            want = -np.mean([max(-y, 0.0) + math.log1p(math.exp(-abs(y)))
                for y in x]) * 2 * kT
        else:
            want = np.mean([float(f(y)) * y - float(f.entropy(y)) for y in x]
                ) * 2 * kT
        close(dia.grand_potential(e, kT=kT, occupations=occupations) / kT,
            want / kT, 'grand potential for %s' % x, tol=1e-12)
        close(dia.grand_potential(e.reshape((1, -1, 1)), kT=kT,
            occupations=f) / kT, want / kT, 'grand potential', tol=1e-12)
        ctx.outcome((x, kT, want), nontrivial=want != 0)

@check.family
def triangles(ctx, nk, nbnd, kind, kT, occupations):
    nk = tuple(nk)
    N = np.prod(nk)
    e = energies(nk, nbnd, kind)
    ks = points(nk)
    g = [gen.cplx((*nk, nbnd, nbnd), n) for n in range(3)]

    for q in ks:
        for Q in ks:
            got = dia.triangle(angle(q, nk), angle(Q, nk), e, *g, kT=kT,
                occupations=occupations)
            also, integrand = dia.triangle(shifted(angle(q, nk), nk, 0)[
                :len(nk)], angle(Q, nk), e, *g, kT=kT,
                occupations=occupations, fluctuations=True)
            want = np.zeros((*nk, nbnd, nbnd, nbnd), dtype=complex)
            for k in ks:
                kq, kQ = plus(k, q, nk), plus(k, Q, nk)
                for a, b, c in itertools.product(range(nbnd), repeat=3):
                    want[k + (a, b, c)] = (ddd(occupations, e[k][a],
                        e[kq][b], e[kQ][c], kT) * np.conj(g[0][k + (b, a)])
                        * g[1][k + (c, a)] * g[2][kQ + (b, c)])
            what = 'triangle for %s and %s' % (q, Q)
            close(got, 4 / N * want.sum(), what, tol=1e-6, rel=1e-6)
            close(also, got, 'equivalent q, ' + what)
            close(integrand, 4 * want, 'integrand of ' + what, tol=1e-6,
                rel=1e-6)
            ctx.outcome((nk, kind, q, Q, got), nontrivial=abs(got) > 0)

@check.family
def renormalize(ctx, nk, nbnd, norb, kind, kT, occupations):
    nk = tuple(nk)
    N = np.prod(nk)
    e = energies(nk, nbnd, kind)
    ks = points(nk)
    qs = [shifted(angle(q, nk), nk, n)[:len(nk)] if n % 2 else angle(q, nk)
        for n, q in enumerate(ks)]
    U = gen.cplx((*nk, norb, nbnd), 5)
    gb = gen.cplx((len(qs), 2, *nk, nbnd, nbnd), 6)
    go = gen.cplx((len(qs), 2, *nk, norb, norb), 7)
    W2 = gen.cplx((len(qs), norb, norb), 8)
    W4 = gen.cplx((len(qs), norb, norb, norb, norb), 9)
    args = dict(kT=kT, occupations=occupations, status=False)
    saved = [x.copy() for x in (e, U, gb, go, W2, W4)]

    def bubble(iq, sub, vertex):
        """Sum over states of bubble and vertex in orbital indices c, d."""
        q = ks[iq]
        P = np.zeros((2, norb, norb), dtype=complex)
        for k in ks:
            kq = plus(k, q, nk)
            for m in range(sub):
                for n in range(sub):
                    P += 2 / N * dd(occupations, e[kq][m], e[k][n], kT) * \
                        np.multiply.outer(vertex(iq, k, kq, m, n),
                        np.outer(U[kq][:, m], U[k][:, n].conj()))
        return P

    def band(iq, k, kq, m, n):
        return gb[(iq, slice(None)) + k + (m, n)]

    def orbital(iq, k, kq, m, n):
        return np.einsum('a,b,xab->x', U[kq][:, m].conj(), U[k][:, n],
            go[(iq, slice(None)) + k])

    for W in W2, W4:
        density = W.ndim == 3

        for sub in [None] + list(range(1, nbnd + 1)):
            got = dia.renormalize_coupling_band(qs, e, gb, W, U, nbnd_sub=sub,
                **args)
            equal(got.shape, gb.shape, 'shape of coupling in band basis')
            for iq, q in enumerate(ks):
                P = bubble(iq, sub or nbnd, band)
                if density:
                    S = np.einsum('ac,xcc->xa', W[iq], P)
                    S = np.einsum('xa,ab->xab', S, np.eye(norb))
                else:
                    S = np.einsum('abcd,xcd->xab', W[iq], P)
                for k in ks:
                    kq = plus(k, q, nk)
                    at = (iq, slice(None)) + k
                    close(got[at], gb[at] + np.einsum('am,bn,xab->xmn',
                        U[kq].conj(), U[k], S), 'renormalized coupling in '
                        'band basis, q = %s, k = %s' % (q, k))
            ctx.outcome((density, sub, got))

        Pg = dia.Pi_g(qs, e, go, U, dd=density, **args)
        got = dia.renormalize_coupling_orbital(qs, e, go, W, U, **args)
        equal(got.shape, go.shape, 'shape of coupling in orbital basis')
        for iq, q in enumerate(ks):
            P = bubble(iq, nbnd, orbital)
            if density:
                close(Pg[iq], np.einsum('xcc->xc', P), 'bubble and coupling')
                S = np.einsum('ac,xcc->xa', W[iq], P)
                S = np.einsum('xa,ab->xab', S, np.eye(norb))
            else:
                close(Pg[iq], P, 'bubble and coupling')
                S = np.einsum('abcd,xcd->xab', W[iq], P)
            for k in ks:
                at = (iq, slice(None)) + k
                close(got[at], go[at] + S, 'renormalized coupling in orbital '
                    'basis, q = %s, k = %s' % (q, k))
        ctx.outcome((density, got))

    for x, y in zip(saved, (e, U, gb, go, W2, W4)):
        equal(x.tolist(), y.tolist(), 'arguments modified')

@check.family
def electrons(ctx, nk, nbnd, modes, kT, occupations):
    """Fan-Migdal self-energy."""

    nk = tuple(nk)
    N = np.prod(nk)
    e = energies(nk, nbnd, 'generic')
    w = abs(gen.real((*nk, modes), 3)) * 0.1 + 0.01
    ks = points(nk)
    omega = np.array([-0.1, 0.0, 0.04]) + 0.01j
    kk = [angle(k, nk) for k in ks]
    g2 = gen.real((*nk, modes, len(ks), nbnd, nbnd), 4)
    got = dia.fan_migdal_self_energy(kk, e, w, g2, omega, kT=kT,
        occupations=occupations)
    equal(got.shape, (len(ks), nbnd, len(omega)), 'shape')
    for ik, k in enumerate(ks):
        want = np.zeros((nbnd, len(omega)), dtype=complex)
        for q in ks:
            kq = plus(k, q, nk)
            for nu in range(modes):
                n_B = 1 / math.expm1(w[q][nu] / kT)
                for m in range(nbnd):
                    f = occupy(occupations, e[kq][m] / kT)
                    prop = ((f + n_B) / (omega - e[kq][m] + w[q][nu])
                        + (1 - f + n_B) / (omega - e[kq][m] - w[q][nu]))
                    want += np.outer(g2[q + (nu, ik, m)], prop)
        close(got[ik], want / N, 'self-energy at %s' % (k,))
    ctx.outcome(got)

@check.family
def conductivity(ctx, nk, nbnd, ndim, nw, kT, occupations):
    nk = tuple(nk)
    N = np.prod(nk)
    v = gen.real((*nk, nbnd, ndim), 1)
    lo, hi = nw
    domega = 0.05
    omega = domega * np.arange(-lo, hi + 1)
    A = abs(gen.real((*nk, nbnd, len(omega)), 2))
    f = [occupy(occupations, x / kT) for x in omega]
    d = [float(F[occupations].delta(x / kT)) / kT for x in omega]

    got = dia.green_kubo_conductivity(v, A, omega, kT=kT,
        occupations=occupations)
    equal(got.shape, (len(omega), ndim, ndim), 'shape')

    for i, W in enumerate(omega):
        n = i - lo
        want = np.zeros((ndim, ndim))
        for a in range(len(omega)):
            b = a + n
            if 0 <= b < len(omega):
                weight = d[a] if n == 0 else (f[a] - f[b]) / W
                for k in points(nk):
                    for m in range(nbnd):
                        want += weight * A[k][m, a] * A[k][m, b] * np.outer(
                            v[k][m], v[k][m])
        close(got[i], 4 * math.pi / N * domega * want,
            'conductivity at %g' % W)

    # direct current: trapezoidal rule

    if len(omega) > 2:
        got = dia.green_kubo_conductivity(v, A, omega, kT=kT,
            occupations=occupations, dc_only=True)
        y = [d[a] * sum(A[k][m, a] ** 2 * np.outer(v[k][m], v[k][m])
            for k in points(nk) for m in range(nbnd))
            for a in range(len(omega))]
        want = sum((y[a] + y[a + 1]) / 2 * domega
            for a in range(len(omega) - 1))
        close(got, 4 * math.pi / N * want, 'direct current')

        # nonuniform sampling

        x = np.sort(gen.real((5,), 3))
        B = A[..., :1] * np.ones(5)
        got = dia.green_kubo_conductivity(v, B, x, kT=kT,
            occupations=occupations, dc_only=True)
        y = [float(F[occupations].delta(z / kT)) / kT * sum(B[k][m, 0] ** 2
            * np.outer(v[k][m], v[k][m]) for k in points(nk)
            for m in range(nbnd)) for z in x]
        want = sum((y[a] + y[a + 1]) / 2 * (x[a + 1] - x[a])
            for a in range(4))
        close(got, 4 * math.pi / N * want, 'nonuniform sampling')

    ctx.outcome(got)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'
    kinds = 'generic', 'degenerate', 'flat'
    fs = 'fd', 'gauss', 'mv'
    temperatures = (0.03,) if not thorough else (0.01, 0.03, 0.2)

    for nk in MESHES:
        for kind in kinds:
            for f in fs:
                for kT in temperatures:
                    yield 'bubbles', dict(nk=nk, kind=kind, kT=kT,
                        occupations=f)

                    for nbnd in 1, 2:
                        yield 'averages', dict(nk=nk, nbnd=nbnd, kind=kind,
                            kT=kT, occupations=f)
                        if np.prod(nk) <= 6 or thorough:
                            yield 'triangles', dict(nk=nk, nbnd=nbnd,
                                kind=kind, kT=kT, occupations=f)

    for nk in 1, 2, 3:
        for kind in kinds:
            for kT in 0.03, 0.1:
                for nmats in 1, 3, 1000:
                    for height in 0.0, 0.1:
                        yield 'matsubara', dict(nk=nk, kind=kind, kT=kT,
                            nmats=nmats, height=height)

    for nk in [(2,), (2, 2), (2, 1, 2)] if not thorough else MESHES:
        for nbnd in (1, 2) if not thorough else (1, 2, 3):
            for kind in kinds:
                for coupling in ('none', 'g2', 'g2 complex', 'g real', 'g',
                        'g diagonal', 'g U', 'gG', 'gG asymmetric',
                        'gG diagonal', 'gG asymmetric U'):
                    for f in ('fd',) if not thorough else fs:
                        yield 'self_energy', dict(nk=nk, nbnd=nbnd, kind=kind,
                            coupling=coupling, kT=0.03, occupations=f)

    for nk in (1,), (2, 2), (1, 2, 2):
        for nbnd in 1, 2, 3:
            for seed in range(2 if not thorough else 8):
                for f in fs:
                    yield 'derivatives', dict(nk=nk, nbnd=nbnd, seed=seed,
                        kT=0.1, occupations=f)

    X = (-1e5, -2000.0, -800.0, -709.0, -600.0, -40.0, -3.0, -0.1, 0.0, 0.2,
        5.0, 50.0, 700.0, 900.0, 1e4)
    for f in fs:
        for x in X:
            yield 'potential', dict(x=[x], occupations=f)
        for x, y in itertools.combinations(X, 2):
            yield 'potential', dict(x=[x, y], occupations=f)

    for nk in [(2,), (2, 3), (2, 1, 2)] if not thorough else MESHES:
        for nbnd, norb in (1, 1), (2, 2), (2, 3), (1, 2):
            for kind in kinds:
                for f in ('fd', 'gauss'):
                    yield 'renormalize', dict(nk=nk, nbnd=nbnd, norb=norb,
                        kind=kind, kT=0.05, occupations=f)

    for nk in MESHES:
        for nbnd in 1, 2:
            for f in fs:
                for modes in 1, 3:
                    yield 'electrons', dict(nk=nk, nbnd=nbnd, modes=modes,
                        kT=0.03, occupations=f)
                for ndim in 1, 2, 3:
                    for nw in (3, 3), (1, 1), (0, 4), (2, 5):
                        yield 'conductivity', dict(nk=nk, nbnd=nbnd,
                            ndim=ndim, nw=nw, kT=0.03, occupations=f)

check.main()
