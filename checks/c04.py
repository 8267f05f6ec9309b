"""C04: models on meshes and in real space are Fourier transforms."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais, elphmod.el, elphmod.elel, elphmod.elph, elphmod.ph

from mc import gen, ref
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C04', 'exploration',
    rule='all lattices, mesh shapes (one to three dimensions), numbers of '
    'basis orbitals and atoms, units, mass conventions; oracle: literal '
    'Fourier sums over nearest images; trivial: mesh of one point')

OFF = [(0.3, -1.1, 0.7), (2.0, 0.4, -0.9)]

def points(n):
    n = tuple(n) + (1,) * (3 - len(n))
    return [tuple(2 * math.pi * i / m for i, m in zip(idx, n))
        for idx in itertools.product(*map(range, n))]

def nearest(a, n, d):
    """For each mesh point, nearest images of bond R a + d."""

    n = tuple(n) + (1,) * (3 - len(n))
    out = {}
    shells = np.array(list(itertools.product(range(-4, 5), repeat=3)))
    for m in itertools.product(*map(range, n)):
        R = shells * n + m
        l = np.linalg.norm(R @ a + d, axis=1)
        out[m] = [tuple(int(x) for x in r) for r in R[l < l.min() + 1e-7]]
    return out

def transform(n, H, sign):
    """Real-space matrix elements for mesh points, literal inverse sum."""

    n = tuple(n) + (1,) * (3 - len(n))
    ks = points(n)
    H = np.reshape(H, (len(ks), *H.shape[-2:]))
    t = {}
    for m in itertools.product(*map(range, n)):
        t[m] = sum(np.exp(-1j * sum(x * y for x, y in zip(k, m))) * h
            for k, h in zip(ks, H)) / len(ks)
    return t

class Images:
    """Real-space matrix elements on nearest images."""

    def __init__(self, n, t, a, r, block=1, divide=True):
        self.R = {}
        N = len(r)
        for i, j in itertools.product(range(N), repeat=2):
            I = slice(i * block, i * block + block)
            J = slice(j * block, j * block + block)
            for m, Rs in nearest(a, n, r[j] - r[i]).items():
                for R in Rs:
                    if R not in self.R:
                        self.R[R] = np.zeros((N * block,) * 2, dtype=complex)
                    self.R[R][I, J] = t[m][I, J] / (len(Rs) if divide else 1)

    def __call__(self, k):
        return ref.fourier(list(self.R.keys()), list(self.R.values()), k)

    def compare(self, R, data, what, mask=False):
        got = [tuple(int(x) for x in y) for y in R]
        equal(len(got), len(set(got)), what + ': distinct lattice vectors')
        missing = {x for x, t in self.R.items() if np.any(t)} - set(got)
        require(not missing, what + ': missing lattice vectors %s', missing)
        for x, t in zip(got, data):
            if x in self.R:
                if mask:
                    # elements outside Wigner-Seitz cell are unspecified
                    t = np.where(self.R[x] != 0, t, 0)
                close(t, self.R[x], '%s: matrix for %s' % (what, x))
            elif not mask:
                require(not np.any(t), '%s: nonzero matrix for %s not in '
                    'Wigner-Seitz cell', what, x)

def hermitian(H):
    return (H + np.conj(np.swapaxes(H, -2, -1))) / 2

def electrons(rydberg=False, divide=True):
    return elphmod.el.Model(rydberg=rydberg, divide_ndegen=divide)

@check.family
def el(ctx, lat, n, size, herm, fft, unit, model):
    a = gen.lattice(lat)
    r = gen.positions(a, size, 'el')
    if size == 2:
        # symmetric position with many equidistant images
        r[1] = r[0] + 0.5 * a.sum(axis=0)
    H = gen.cplx((*n, size, size), 'H')
    if herm:
        H = hermitian(H)
    copy = H.copy()

    for divide in True, False:
        m = electrons(model, divide)
        if fft:
            t = transform(n, H, 1)
        else:
            t = {x: H[x[:len(n)]] for x in itertools.product(*map(range,
                tuple(n) + (1,) * (3 - len(n))))}

        elphmod.el.k2r(m, H, a, r, fft=fft, rydberg=unit)

        require(np.array_equal(H, copy), 'input modified')
        equal(m.size, size, 'number of orbitals')
        equal(tuple(m.nk), tuple(n) + (1,) * (3 - len(n)), 'mesh')

        scale = elphmod.misc.Ry ** (unit - model)
        want = Images(n, {x: y * scale for x, y in t.items()}, a, r,
            divide=divide)
        want.compare(m.R, m.data, 'hopping', mask=not divide)

        if not divide:
            continue

        for k in OFF:
            close(m.H(*k), want(k), 'interpolated Hamiltonian')
            if herm and fft:
                close(m.H(*k), m.H(*k).conj().T, 'Hermiticity')
        if fft:
            for k, h in zip(points(n), H.reshape((-1, size, size))):
                close(m.H(*k), h * scale, 'Hamiltonian on mesh')

        ctx.outcome((lat, n, size, m.R, m.data), np.prod(n) > 1)

def phonons(lat, nat, divide_mass, divide=True, seed='ph'):
    a = gen.lattice(lat)
    return elphmod.ph.Model(amass=np.array(gen.MASSES[:nat]), at=a,
        tau=gen.positions(a, nat, seed), atom_order=gen.NAMES[:nat],
        divide_mass=divide_mass, divide_ndegen=divide)

def dynamical(n, size, seed='D'):
    """Dynamical matrices with Hermiticity and time-reversal symmetry."""

    nn = tuple(n) + (1,) * (3 - len(n))
    C = gen.real((*nn, size, size), seed) * 1e-3
    C[0, 0, 0] += 0.01 * np.eye(size)
    S = C.copy()
    for m in itertools.product(*map(range, nn)):
        S[m] = (C[m] + C[tuple(-x % y for x, y in zip(m, nn))].T) / 2
    D = np.array([sum(np.exp(1j * sum(x * y for x, y in zip(q, m))) * S[m]
        for m in itertools.product(*map(range, nn))) for q in points(n)])
    return D.reshape((*n, size, size)), {m: S[m]
        for m in itertools.product(*map(range, nn))}

@check.family
def ph(ctx, lat, n, nat, given, model, asr):
    D, C = dynamical(n, 3 * nat)
    copy = D.copy()
    s = np.sqrt(np.repeat(np.array(gen.MASSES[:nat]), 3))
    mm = np.outer(s, s)

    for divide in True, False:
        m = phonons(lat, nat, model, divide)
        elphmod.ph.q2r(m, D_full=D, divide_mass=given,
            apply_asr_simple=asr, flfrc='test.fc' if divide else None)
        require(np.array_equal(D, copy), 'input modified')
        equal((m.size, m.nat), (3 * nat, nat), 'size')
        equal(tuple(m.nq), tuple(n) + (1,) * (3 - len(n)), 'mesh')

        scale = (mm if given else 1) / (mm if model else 1)
        t = {x: y * (mm if given else 1) for x, y in C.items()}
        if asr:
            for i in range(nat):
                I = slice(3 * i, 3 * i + 3)
                total = sum(y[I, I.start % 3 + 3 * j:3 * j + 3]
                    for y in t.values() for j in range(nat))
                t[0, 0, 0] = t[0, 0, 0].copy()
                t[0, 0, 0][I, I] -= total
        full = {x: y / (mm if model else 1) for x, y in t.items()}
        want = Images(n, full, m.a, m.r, block=3, divide=divide)
        want.compare(m.R, m.data, 'force constants', mask=not divide)

        if not divide:
            continue

        for q in OFF:
            close(m.D(*q), want(q), 'interpolated dynamical matrix')
        if not asr:
            for q, d in zip(points(n), D.reshape((-1, 3 * nat, 3 * nat))):
                close(m.D(*q), d * scale, 'dynamical matrix on mesh')
            for q in OFF:
                close(m.D(*q), m.D(*q).conj().T, 'Hermiticity')
                close(m.D(*q), m.D(*[-x for x in q]).conj(), 'reality')
        else:
            total = (m.D() * (mm if model else 1)).reshape((nat, 3, nat, 3)
                ).sum(axis=2)
            close(total, np.zeros_like(total), 'acoustic sum')

        # sum rule is applied after writing the file:
        again = elphmod.ph.Model('test.fc', divide_mass=model,
            apply_asr_simple=asr)
        for q in OFF:
            close(again.D(*q), m.D(*q), 'dynamical matrix from file',
                tol=1e-9 if model else 1e-6)

        ctx.outcome((lat, n, nat, m.R, m.data), np.prod(n) > 1)

@check.family
def ph_wedge(ctx, angle, n, sites, order):
    """Dynamical matrices from symmetry-irreducible q points."""

    a1, a2 = elphmod.bravais.translations(180 - angle)
    a = np.zeros((3, 3))
    a[0, :2] = a1
    a[1, :2] = a2
    a[2, 2] = 4.0
    a *= 5.0

    # positions invariant (up to lattice vectors) under threefold rotations
    # about the origin and reflection of first Cartesian coordinate
    special = {60: [(0, 0), (1 / 3, 2 / 3), (2 / 3, 1 / 3)],
        120: [(0, 0), (1 / 3, 1 / 3), (2 / 3, 2 / 3)],
        90: [(0, 0), (0.5, 0.5), (0.5, 0)]}[angle]
    tau = np.array([[*special[s], 0.1 * i] for i, s in enumerate(sites)]) @ a
    nat = len(tau)

    ops = []
    for phi in (0,) if angle == 90 else (0, 120, 240):
        c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
        rot = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        ops += [rot, np.diag([-1, 1, 1]) @ rot]

    # symmetrize random force constants with respect to these operations;
    # atoms (R, i) are moved about the origin

    C = {}
    base = gen.real((7, 7, 3 * nat, 3 * nat), 'wedge', nat)
    inv = np.linalg.inv(a)
    for x, y in itertools.product(range(-3, 4), repeat=2):
        for i, j in itertools.product(range(nat), repeat=2):
            block = base[x + 3, y + 3, 3 * i:3 * i + 3, 3 * j:3 * j + 3]
            d = np.array([x, y, 0]) @ a + tau[j] - tau[i]
            block = block * math.exp(-0.1 * d @ d) * 1e-3
            if (x, y) == (0, 0) and i == j:
                block = block + 0.02 * np.eye(3)
            for S in ops:
                e = S @ d - tau[j] + tau[i]
                R = np.round(e @ inv)
                assert np.allclose(R @ a, e)
                R = int(R[0]), int(R[1])
                B = S @ block @ S.T / len(ops) / 2
                for r, k, l, b in (R, i, j, B), ((-R[0], -R[1]), j, i, B.T):
                    C.setdefault(r, np.zeros((3 * nat, 3 * nat)))
                    C[r][3 * k:3 * k + 3, 3 * l:3 * l + 3] += b

    def D(q1, q2):
        return sum(np.exp(1j * (R[0] * q1 + R[1] * q2)) * c
            for R, c in C.items())

    if angle == 90:
        q = sorted((i, j) for i in range(n // 2 + 1)
            for j in range(n // 2 + 1))
    else:
        q = sorted(elphmod.bravais.irreducibles(n, angle))
    # other members of the orbit serve as well
    if order and angle != 90:
        q = [elphmod.bravais.images(*x, n, angle) for x in q]
        q = [sorted(x)[-1] for x in q]
    q = 2 * np.pi * np.array(q, dtype=float) / n
    irr = np.array([D(*x) for x in q])

    m = elphmod.ph.Model(amass=np.array(gen.MASSES[:nat]), at=a, tau=tau,
        atom_order=gen.NAMES[:nat])
    elphmod.ph.q2r(m, list(irr) if order else irr, q, n, angle=angle)

    for i, j in itertools.product(range(n), repeat=2):
        x = 2 * np.pi * i / n, 2 * np.pi * j / n
        close(m.D(*x), D(*x), 'dynamical matrix at %d, %d' % (i, j))

    ctx.outcome((angle, n, sites, m.data), nontrivial=n > 1)

@check.family
def elel(ctx, lat, n, size, fft):
    a = gen.lattice(lat)
    r = gen.positions(a, size, 'elel')
    W = hermitian(gen.cplx((*n, size, size), 'W'))
    m = elphmod.elel.Model()
    elphmod.elel.q2r(m, W, a, r, fft=fft)
    equal(m.size, size, 'number of orbitals')

    if fft:
        t = transform(n, W, 1)
    else:
        t = {x: W[x[:len(n)]] for x in itertools.product(*map(range,
            tuple(n) + (1,) * (3 - len(n))))}
    want = Images(n, t, a, r)
    want.compare(m.R, m.data, 'interaction')
    for q in OFF:
        close(m.W(*q), want(q), 'interpolated interaction')
    if fft:
        for q, w in zip(points(n), W.reshape((-1, size, size))):
            close(m.W(*q), w, 'interaction on mesh')

    ctx.outcome((lat, n, size, m.data), np.prod(n) > 1)

@check.family
def elph(ctx, lat, nq, nk, size, nat, given, model, divide, shared):
    a = gen.lattice(lat)
    e = elphmod.el.Model()
    e.size = size
    p = phonons(lat, nat, model)
    p.size = 3 * nat
    r = gen.positions(a, size, 'orb')
    Rk = np.zeros((1, 3), dtype=int)
    m = elphmod.elph.Model(el=e, ph=p, Rk=Rk, dk=np.ones((1, 1, 1), dtype=int),
        Rg=Rk, dg=np.ones((1, 1, 1, 1), dtype=int), divide_mass=model,
        divide_ndegen=divide, shared_memory=shared)

    q3 = tuple(nq) + (1,) * (3 - len(nq))
    k3 = tuple(nk) + (1,) * (3 - len(nk))
    g = gen.cplx((*nq, 3 * nat, *nk, size, size), 'g')
    copy = g.copy()
    elphmod.elph.q2r(m, nq, nk, g, r, divide_mass=given, shared_memory=shared)
    require(np.array_equal(g, copy), 'input modified')

    s = np.sqrt(np.repeat(np.array(gen.MASSES[:nat]), 3))
    scale = ((s if given else 1) / (s if model else 1)) * np.ones(3 * nat)
    G = g.reshape((len(points(nq)), 3 * nat, len(points(nk)), size, size))
    G = G * scale[:, None, None, None]

    # literal inverse transform onto nearest images (seen from first orbital)
    Rg = np.array(list(itertools.product(*map(range, q3))))
    Rk = np.array(list(itertools.product(*map(range, k3))))
    fq = np.exp(-1j * Rg @ np.array(points(nq)).T) / len(Rg)
    fk = np.exp(-1j * Rk @ np.array(points(nk)).T) / len(Rk)
    t = np.einsum('Rq,rk,qxkab->Rrxab', fq, fk, G)

    want = {}
    for i in range(size):
        for x in range(nat):
            X = slice(3 * x, 3 * x + 3)
            near_g = nearest(a, nq, p.r[x] - r[i])
            for j in range(size):
                near_k = nearest(a, nk, r[j] - r[i])
                for u, v in itertools.product(range(len(Rg)), range(len(Rk))):
                    A = near_g[tuple(int(c) for c in Rg[u])]
                    B = near_k[tuple(int(c) for c in Rk[v])]
                    for key in itertools.product(A, B):
                        if key not in want:
                            want[key] = np.zeros((3 * nat, size, size),
                                dtype=complex)
                        want[key][X, i, j] = t[u, v, X, i, j] / (len(A)
                            * len(B) if divide else 1)

    gs = [tuple(int(c) for c in x) for x in m.Rg]
    ks = [tuple(int(c) for c in x) for x in m.Rk]
    equal(len(gs), len(set(gs)), 'distinct lattice vectors')
    equal(len(ks), len(set(ks)), 'distinct lattice vectors')
    if divide:
        require({x for x, y in want} <= set(gs), 'missing lattice vector')
        require({y for x, y in want} <= set(ks), 'missing lattice vector')
        for i, x in enumerate(gs):
            for j, y in enumerate(ks):
                close(m.data[i, :, j], want.get((x, y), np.zeros((3 * nat,
                    size, size))), 'coupling for %s, %s' % (x, y))
        for i, q in enumerate(points(nq)):
            for j, k in enumerate(points(nk)):
                close(m.g(*q, *k), G[i, :, j], 'coupling on mesh')
        for q in OFF:
            for k in OFF:
                close(m.g(*q, *k), sum(np.exp(1j * (np.dot(x, q)
                    + np.dot(y, k))) * w for (x, y), w in want.items()),
                    'interpolated coupling')
    else:
        for (x, y), w in want.items():
            d = m.data[gs.index(x), :, ks.index(y)]
            close(np.where(w != 0, d, 0), w, 'undivided coupling')

    # keep lattice vectors:
    if divide:
        before = m.data.copy()
        elphmod.elph.q2r(m, nq, nk, 2 * g, divide_mass=given)
        close(m.data, 2 * before, 'coupling replaced')

    ctx.outcome((lat, nq, nk, m.data), np.prod(nq) * np.prod(nk) > 1)

@check.family
def lookup(ctx, nmax):
    """Real-space matrices for given lattice vector; derivatives."""

    e = gen.el_model(elphmod, nmax=nmax, hermitian=False)
    p = gen.ph_model(elphmod, nmax=nmax)
    w = gen.elel_model(elphmod, nmax=nmax)
    g = gen.elph_model(elphmod, e, p, ng=nmax, nk=(1, 0, 1))

    R = list(itertools.product(range(-2, 3), repeat=3))
    for name, m, f in (('hopping', e, e.t), ('force constants', p, p.C),
            ('interaction', w, w.WR)):
        d = {tuple(int(c) for c in x): y for x, y in zip(m.R, m.data)}
        for x in R:
            close(f(*x), d.get(x, 0 * m.data[0]), '%s for %s' % (name, x))
        close(f(), d[0, 0, 0], name)
        close(f(1), d.get((1, 0, 0), 0 * m.data[0]), name)

    d = {(tuple(int(c) for c in x), tuple(int(c) for c in y)): g.data[i, :, j]
        for i, x in enumerate(g.Rg) for j, y in enumerate(g.Rk)}
    for x, y in itertools.product(itertools.product((-2, -1, 0, 1), (-1, 0, 1),
            (-1, 0, 1)), itertools.product((-1, 0, 1, 2), (-1, 0), (0, 1))):
        close(g.gR(*x, *y), d.get((x, y), 0 * g.data[0, :, 0]), 'coupling')

    far = [np.add(k, 2 * np.pi * np.array(m)) for k, m in zip(OFF,
        itertools.cycle([(2, -3, 1), (-4, 0, 5)]))]

    for k in (*OFF, *far):
        close(e.H(*k), ref.fourier(e.R, e.data, k), 'Hamiltonian')
        close(p.D(*k), ref.fourier(p.R, p.data, k), 'dynamical matrix')
        close(w.W(*k), ref.fourier(w.R, w.data, k), 'interaction')
        v = e.v(*k)
        for i in range(3):
            h = np.eye(3)[i] * 1e-4
            close(v[i], (e.H(*(k + h)) - e.H(*(k - h))) / 2e-4,
                'velocity', tol=1e-7)
    for n in range(1, 4):
        close(e.H(*OFF[0][:n]), e.H(*OFF[0][:n], *[0] * (3 - n)), 'defaults')
        close(p.D(*OFF[0][:n]), p.D(*OFF[0][:n], *[0] * (3 - n)), 'defaults')
        close(w.W(*OFF[0][:n]), w.W(*OFF[0][:n], *[0] * (3 - n)), 'defaults')
    ctx.outcome((nmax, e.data), np.prod(np.add(nmax, 1)) > 1)

@check.family
def mesh(ctx, n):
    want = np.array(points(n))[:, :len(n)]
    flat = elphmod.bravais.mesh(*n, flat=True)
    close(flat, want, 'flat mesh')
    full = elphmod.bravais.mesh(*n)
    equal(full.shape, (*n, len(n)), 'shape of mesh')
    close(full.reshape((-1, len(n))), want, 'mesh')

    e = gen.el_model(elphmod, nmax=(2, 1, 1)[:len(n)] + (0,) * (3 - len(n)))
    H = elphmod.dispersion.sample(e.H, full)
    equal(H.shape, (*n, e.size, e.size), 'shape of sampled matrices')
    close(H.reshape((-1, e.size, e.size)), [ref.fourier(e.R, e.data,
        tuple(k) + (0,) * (3 - len(n))) for k in want], 'sampled matrices')
    v = elphmod.dispersion.sample(e.v, flat)
    close(v[-1], e.v(*flat[-1]), 'sampled velocity')

    # model within Wigner-Seitz cell of sufficiently large mesh is recovered
    if all(m > 2 * x for m, x in zip(n, np.abs(e.R).max(axis=0))):
        a = gen.lattice('ort')
        m = elphmod.el.Model(rydberg=e.rydberg)
        elphmod.el.k2r(m, H, a, np.zeros((e.size, 3)), rydberg=e.rydberg)
        got = ref.summed(m.R, m.data, 1e-12)
        want = ref.summed(e.R, e.data, 1e-12)
        equal(set(got), set(want), 'recovered lattice vectors')
        for R in want:
            close(got[R], want[R], 'recovered hopping')
    ctx.outcome((n, H), np.prod(n) > 1)

def elongated(lat, n):
    """Effective supercell too skewed for search among neighboring ones?"""

    n = (*n, 1, 1)[:3]
    if lat in ('fcc', 'lef', 'mono'):
        return max(n) > 3 * min(n)
    return max(n) > 4 and lat not in ('cub', 'ort')

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    lats = [x for x in gen.LATTICES if x != 'skw']
    top = (1, 2, 3, 4) if thorough else (1, 2, 3)
    one = [(n,) for n in range(1, 6)]
    two = list(itertools.product(top, repeat=2))
    three = [n for n in itertools.product(top, repeat=3)
        if np.prod(n) <= (36 if thorough else 12)]

    for lat in lats:
        for n in one + two + three:
            if lat in ('fcc', 'lef', 'mono') and not thorough \
                    and (len(n) < 3 or np.prod(n) not in (1, 2, 4, 6, 12)):
                continue
            if elongated(lat, n):
                continue
            for size in 1, 2, 3:
                if np.prod(n) > 6 and size == 3 and not thorough:
                    continue
                yield 'el', dict(lat=lat, n=n, size=size, herm=size != 3,
                    fft=True, unit=size == 2, model=size > 1)
        for n in (2,), (3, 2), (2, 2, 2), (1, 3, 2):
            for herm, fft, unit, model in itertools.product((0, 1), repeat=4):
                yield 'el', dict(lat=lat, n=n, size=2, herm=bool(herm),
                    fft=bool(fft), unit=bool(unit), model=bool(model))

    for lat in lats:
        for n in one + two + three:
            if lat in ('fcc', 'lef', 'mono') and not thorough \
                    and (len(n) < 3 or np.prod(n) not in (1, 2, 4, 6, 12)):
                continue
            if elongated(lat, n):
                continue
            for nat in 1, 2:
                if np.prod(n) > 6 and nat == 2 and not thorough:
                    continue
                yield 'ph', dict(lat=lat, n=n, nat=nat, given=nat == 1,
                    model=True, asr=math.prod(n) % 2 == 0)
        for n in (2,), (2, 3), (2, 2, 1), (1, 1, 3):
            for given, model, asr in itertools.product((0, 1), repeat=3):
                yield 'ph', dict(lat=lat, n=n, nat=3, given=bool(given),
                    model=bool(model), asr=bool(asr))

    for angle in 60, 90, 120:
        for n in range(1, 6 if not thorough else 9):
            for sites in (0,), (1,), (0, 1), (0, 1, 2), (2, 2), (1, 0, 0):
                for order in False, True:
                    yield 'ph_wedge', dict(angle=angle, n=n, sites=sites,
                        order=order)

    for lat in lats:
        for n in one + two + three:
            if np.prod(n) > 9 and not thorough or elongated(lat, n):
                continue
            yield 'elel', dict(lat=lat, n=n, size=2, fft=True)
        for n in (3,), (1, 2), (2, 1, 3):
            yield 'elel', dict(lat=lat, n=n, size=3, fft=False)

    small = [(1,), (2,), (3,), (1, 2), (2, 2), (1, 3), (3, 1, 1), (1, 2, 2),
        (1, 1, 2)]
    for nq, nk in itertools.product(small, repeat=2):
        if np.prod(nq) * np.prod(nk) > (9 if not thorough else 16):
            continue
        yield 'elph', dict(lat='tri', nq=nq, nk=nk, size=2, nat=1, given=True,
            model=True, divide=True, shared=False)
    for lat in lats:
        for given, model, divide, shared in itertools.product((False, True),
                repeat=4):
            for nq, nk in ((2,), (3,)), ((1, 2), (2, 1)), ((2, 1, 1), (2,)):
                if shared and not divide:
                    continue
                yield 'elph', dict(lat=lat, nq=nq, nk=nk, size=2, nat=2,
                    given=given, model=model, divide=divide, shared=shared)
        yield 'elph', dict(lat=lat, nq=(2, 2), nk=(2, 2), size=1, nat=2,
            given=False, model=True, divide=True, shared=True)

    for nmax in (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 0, 1), (1, 1, 1):
        yield 'lookup', dict(nmax=nmax)

    for n in one + two + three + [(5, 3), (5, 3, 3)]:
        yield 'mesh', dict(n=n)

check.main()
