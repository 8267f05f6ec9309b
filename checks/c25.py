"""C25: superconductivity parameters follow from their definitions."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
from fractions import Fraction
import numpy as np

import elphmod.eliashberg as eliashberg

from mc import gen
from mc.common import Check, require, close, equal, quiet

elphmod.misc.verbosity = 0

check = Check('C25', 'exploration',
    rule='all combinations of parameters of the formulas on a grid; all mesh '
    'sizes, numbers of bands and modes, methods, smearing functions, and '
    'sets of soft modes up to bounds; oracles: published formulas, explicit '
    'sums over the whole Brillouin zone, exact linear interpolation within '
    'triangles; trivial: single q point')

KB = 1.380649e-23 / 1.602176634e-19

def formula(lamda, wlog, mustar=0.1, w2nd=None, correct=False):
    """Allen and Dynes, Phys. Rev. B 12, 905 (1975), Eqs. (2) and (34)."""

    T = wlog / (1.2 * KB) * math.exp(-1.04 * (1 + lamda)
        / (lamda - mustar * (1 + 0.62 * lamda)))
    if correct:
        T *= (1 + (lamda / (2.46 * (1 + 3.8 * mustar))) ** 1.5) ** (1 / 3)
        if w2nd is not None:
            L2 = 1.82 * (1 + 6.3 * mustar) * (w2nd / wlog)
            T *= 1 + (w2nd / wlog - 1) * lamda ** 2 / (lamda ** 2 + L2 ** 2)
    return T

@check.family
def temperature(ctx, wlog, mustar, ratio, lamdas):
    """Critical temperature as a function of coupling strength."""

    w2nd = None if ratio is None else wlog * ratio
    old = {}
    for lamda in lamdas:
        for correct in (False, True):
            for w2 in {None, w2nd}:
                T = eliashberg.Tc(lamda, wlog, mustar=mustar, w2nd=w2,
                    correct=correct)
                require(np.isfinite(T) and T >= 0, 'temperature %s' % T)
                # coupling has to exceed repulsion:
                if lamda - mustar * (1 + 0.62 * lamda) > 1e-3:
                    close(T, formula(lamda, wlog, mustar, w2, correct),
                        'temperature', tol=1e-30, rel=1e-6)
                else:
                    require(T < 1e-12 * wlog / KB, 'no superconductivity')
                # the stronger the coupling, the higher the temperature
                # (shape corrections of less than one set aside):
                key = correct, w2
                if w2 is None or ratio >= 1:
                    require(T >= old.get(key, 0.0) * (1 - 1e-12), 'monotony')
                old[key] = T
                ctx.add('evaluations')
        # proportional to phonon energy
        T1 = eliashberg.Tc(lamda, wlog, mustar, w2nd, True)
        T2 = eliashberg.Tc(lamda, 3 * wlog, mustar,
            None if w2nd is None else 3 * w2nd, True)
        close(3 * T1, T2, 'units', tol=1e-30, rel=1e-10)
    close(eliashberg.Tc(1.0, wlog), formula(1.0, wlog), 'default', rel=1e-6)
    ctx.outcome((wlog, mustar, ratio, old[False, None]), mustar > 0)

# Brillouin zone

def orbit(q, n):
    """Points equivalent on mesh of reciprocal vectors at angle of 60."""

    out = set()
    for x, y in (q, q[::-1]):
        for _ in range(6):
            x, y = -y, x + y
            out.add((x % n, y % n))
    return out

def irreducible(n):
    seen, first = set(), []
    for q in itertools.product(range(n), repeat=2):
        if q not in seen:
            first.append(q)
            seen |= orbit(q, n)
    return first

def symmetric(n, nel, *seed):
    """Band structure with symmetry of hexagonal lattice."""

    e = np.empty((n, n, nel))
    for m, q in enumerate(irreducible(n)):
        v = gen.real(nel, 'band', m, *seed)
        for k in orbit(q, n):
            e[k] = v
    return e

DELTA = dict(
    fd=lambda x: 0.25 / math.cosh(0.5 * x) ** 2,
    gauss=lambda x: math.exp(-x * x) / math.sqrt(math.pi),
    lorentz=lambda x: 1 / (math.pi ** 2 + x * x), # in units of height
    mp=lambda x: math.exp(-x * x) / math.sqrt(math.pi) * (1.5 - x * x),
    )

def parameters(V, w2, N0, dd, mustar):
    lamda = N0 * V.sum() / dd.sum()
    wlog = math.exp(sum(v * 0.5 * math.log(w) for v, w in zip(V.flat,
        w2.flat)) / V.sum())
    w2nd = math.sqrt((V * w2).sum() / V.sum())
    return lamda, wlog, w2nd

def compare(got, lamda, wlog, w2nd, mustar, correct, tol=1e-8):
    equal(len(got), 4 if correct else 3, 'number of results')
    close(got[0], lamda, 'coupling strength', tol=tol, rel=tol)
    close(got[1], wlog, 'phonon energy', tol=tol, rel=tol)
    if correct:
        close(got[3], w2nd, 'second moment', tol=tol, rel=tol)
    if lamda - mustar * (1 + 0.62 * lamda) > 1e-3:
        close(got[2], formula(lamda, wlog, mustar, w2nd, correct),
            'critical temperature', tol=1e-20, rel=max(tol * 1e3, 1e-5))

def setup(nq, nk, nel, nph, soft, sym=False):
    Q = irreducible(nq)
    nQ = len(Q)
    e = (symmetric if sym else lambda n, b, *s: gen.real((n, n, b), *s))(
        nk, nel, nk, nel)
    w2 = abs(gen.real((nQ, nph), 'w2', nq)) + 0.05
    g2 = abs(gen.real((nQ, nph, nk, nk, nel, nel), 'g2', nq, nk)) + 0.02
    # unstable, acoustic, and almost vanishing modes
    for n, value in enumerate(soft):
        w2[(n * 7) % nQ, n % nph] = value
    return Q, e, w2, g2

@check.family
def smearing(ctx, nq, ratio, nel, nph, f, kT, soft, correct):
    nk = nq * ratio
    mustar = 0.1 if correct else 0.0
    Q, e, w2, g2 = setup(nq, nk, nel, nph, soft)
    copies = [x.copy() for x in (e, w2, g2)]
    eps = 1e-10
    with quiet():
        got = eliashberg.McMillan(nq, e, w2, g2, eps=eps, mustar=mustar,
            kT=kT, f=f, correct=correct)
    for x, y in zip((e, w2, g2), copies):
        require(np.array_equal(x, y), 'arguments modified')

    delta = np.array([DELTA[f](x / kT) / kT for x in e.flat]).reshape(e.shape)
    G = np.zeros((len(Q), nph))
    dd = np.zeros(len(Q))
    for iq, (q1, q2) in enumerate(Q):
        weight = len(orbit((q1, q2), nq))
        for k1, k2, m, n in itertools.product(range(nk), range(nk),
                range(nel), range(nel)):
            both = weight * delta[k1, k2, n] * delta[
                (k1 + q1 * ratio) % nk, (k2 + q2 * ratio) % nk, m]
            G[iq] += both * g2[iq, :, k1, k2, m, n]
            dd[iq] += both
    N0 = delta.sum() / nk ** 2
    W = np.where(w2 < eps, eps, w2)
    V = np.where(w2 < eps, 0.0, G) / W
    compare(got, *parameters(V, W, N0, dd, mustar), mustar, correct)
    ctx.outcome((nq, ratio, nel, nph, f, got), nq > 1)

@check.family
def whole_zone(ctx, nq, ratio, nel, nph, f):
    """Irreducible points stand for all points of mesh."""

    nk = nq * ratio
    Q, e, w2, g2 = setup(nq, nk, nel, nph, (), sym=True)
    # coupling depends on band energies as it must not depend on orientation:
    which = gen.rng(nq, nk).rand(len(Q), nph, 3)
    def coupling(iq, nu, x, y):
        a, b, c = which[iq, nu]
        return 0.1 + (a * x + b * y + c) ** 2
    for iq, (q1, q2) in enumerate(Q):
        E = np.roll(e, (-q1 * ratio, -q2 * ratio), axis=(0, 1))
        for nu, m, n in itertools.product(range(nph), range(nel), range(nel)):
            g2[iq, nu, :, :, m, n] = coupling(iq, nu, E[..., m], e[..., n])
    with quiet():
        got = eliashberg.McMillan(nq, e, w2, g2, kT=0.3, f=f, correct=True)

    delta = np.array([DELTA[f](x / 0.3) / 0.3 for x in e.flat]).reshape(e.shape)
    index = {p: iq for iq, q in enumerate(Q) for p in orbit(q, nq)}
    V, W, D = [], [], []
    for q1, q2 in itertools.product(range(nq), repeat=2):
        iq = index[q1, q2]
        d = np.roll(delta, (-q1 * ratio, -q2 * ratio), axis=(0, 1))
        E = np.roll(e, (-q1 * ratio, -q2 * ratio), axis=(0, 1))
        total = np.zeros(nph)
        both = 0.0
        for m, n in itertools.product(range(nel), repeat=2):
            both += (d[..., m] * delta[..., n]).sum()
            for nu in range(nph):
                total[nu] += (d[..., m] * delta[..., n] * coupling(iq, nu,
                    E[..., m], e[..., n])).sum()
        V.append(total / w2[iq])
        W.append(w2[iq])
        D.append(both)
    compare(got, *parameters(np.array(V), np.array(W), delta.sum() / nk ** 2,
        np.array(D), 0.0), 0.0, True)
    ctx.outcome((nq, ratio, nel, nph, f, got), nq > 1)

# tetrahedron method

def triangles(n):
    for i, j in itertools.product(range(n), repeat=2):
        yield (i, j), (i + 1, j), (i, j + 1)
        yield (i + 1, j + 1), (i + 1, j), (i, j + 1)

def area_density(e):
    """Density of states at zero energy of linearly interpolated band."""

    n = len(e)
    D = 0.0
    for t in triangles(n):
        a, b, c = sorted(e[i % n, j % n] for i, j in t)
        if a < 0 <= b:
            D += -a / ((b - a) * (c - a))
        elif b < 0 < c:
            D += c / ((c - a) * (c - b))
    return D / n ** 2

@check.family
def tetrahedra(ctx, nq, ratio, nel, nph, correct, soft):
    nk = nq * ratio
    mustar = 0.1
    Q, e, w2, g2 = setup(nq, nk, nel, nph, soft)
    with quiet():
        got = eliashberg.McMillan(nq, e, w2, g2, mustar=mustar, tetra=True,
            correct=correct)
    G = np.zeros((len(Q), nph))
    dd = np.zeros(len(Q))
    for iq, (q1, q2) in enumerate(Q):
        weight = len(orbit((q1, q2), nq))
        for t in triangles(nk):
            k = [(i % nk, j % nk) for i, j in t]
            kq = [((i + q1 * ratio) % nk, (j + q2 * ratio) % nk) for i, j in t]
            for m, n in itertools.product(range(nel), repeat=2):
                x = [e[p][n] for p in k]
                y = [e[p][m] for p in kq]
                w = ((x[1] - x[0]) * (y[2] - y[0])
                    - (x[2] - x[0]) * (y[1] - y[0]))
                if abs(w) < 1e-14:
                    continue
                u = (-x[0] * (y[2] - y[0]) + (x[2] - x[0]) * y[0]) / w
                v = (-(x[1] - x[0]) * y[0] + x[0] * (y[1] - y[0])) / w
                if min(u, v, 1 - u - v) < 0:
                    continue
                both = weight / abs(w) / nk ** 2
                dd[iq] += both
                for s, p in zip((1 - u - v, u, v), k):
                    G[iq] += both * s * g2[iq, :, p[0], p[1], m, n]
    N0 = sum(area_density(e[..., n]) for n in range(nel))
    if not dd.sum():
        return ctx.outcome((nq, ratio, nel, 'none'), False)
    W = np.where(w2 < 1e-10, 1e-10, w2)
    V = np.where(w2 < 1e-10, 0.0, G) / W
    if V.sum() <= 0:
        return ctx.outcome((nq, ratio, nel, 'none'), False)
    compare(got, *parameters(V, W, N0, dd, mustar), mustar, correct, tol=1e-6)
    ctx.outcome((nq, ratio, nel, nph, got), nq > 1)

@check.cases
def enumerate_cases(tier):
    quick = tier == 'quick'
    lamdas = [i / 20 for i in range(0, 80 if quick else 400)]
    for wlog in (1e-4, 0.02, 0.3):
        for mustar in [i / 20 for i in range(0, 9)]:
            for ratio in (None, 0.5, 1, 1.0, 1.3, 4.0):
                yield 'temperature', dict(wlog=wlog, mustar=mustar,
                    ratio=ratio, lamdas=lamdas)
    softs = [(), (0.0,), (-0.3,), (1e-11, -0.1, 0.0), (1e-9,)]
    for nq in range(1, 6 if quick else 8):
        for ratio in (1, 2) if quick else (1, 2, 3):
            for nel, nph in ((1, 1), (2, 1), (1, 3), (3, 2)):
                for f in DELTA:
                    yield 'whole_zone', dict(nq=nq, ratio=ratio, nel=nel,
                        nph=nph, f=f)
                    for i, soft in enumerate(softs):
                        # some mode has to be stable
                        if len(irreducible(nq)) * nph < 4 and soft:
                            continue
                        # averages with negative weights may not exist
                        if f == 'mp' and 1e-9 in soft:
                            continue
                        yield 'smearing', dict(nq=nq, ratio=ratio, nel=nel,
                            nph=nph, f=f, kT=(0.2, 0.5)[i % 2], soft=soft,
                            correct=bool((i + nel) % 2))
                for correct in (False, True):
                    for soft in softs[:1] if len(irreducible(nq)) * nph < 4 \
                            else softs:
                        yield 'tetrahedra', dict(nq=nq, ratio=ratio, nel=nel,
                            nph=nph, correct=correct, soft=soft)

check.main()
