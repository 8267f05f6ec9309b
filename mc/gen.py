"""Deterministic generic models built on the public attributes of the classes.

All numbers come from private generators seeded by the arguments, so that each
model is a function of its parameters.  `e` is the package (one copy per
simulated rank), so the objects belong to the code under test.
"""

import itertools

import numpy as np

LATTICES = dict(
    cub=[[6.0, 0.0, 0.0], [0.0, 6.0, 0.0], [0.0, 0.0, 6.0]],
    ort=[[5.0, 0.0, 0.0], [0.0, 6.1, 0.0], [0.0, 0.0, 7.3]],
    hex=[[5.0, 0.0, 0.0], [-2.5, 2.5 * 3 ** 0.5, 0.0], [0.0, 0.0, 9.0]],
    tri=[[5.0, 0.3, -0.2], [-1.7, 5.5, 0.4], [0.6, -0.5, 6.5]],
    fcc=[[0.0, 4.0, 4.0], [4.0, 0.0, 4.0], [4.0, 4.0, 0.0]],
    lef=[[0.3, 5.0, -0.2], [5.5, -1.7, 0.4], [-0.5, 0.6, 6.5]],
    # strongly skewed (not reduced) cell:
    skw=[[5.0, 0.0, 0.0], [9.3, 4.0, 0.0], [1.0, 2.2, 7.0]],
    # layer in general orientation:
    obl=[[4.8, 1.1, 0.0], [-1.6, 5.3, 0.0], [0.0, 0.0, 9.0]],
    mono=[[5.0, 0.0, 0.0], [0.0, 6.0, 0.0], [-1.5, 0.0, 7.0]],
    )

def lattice(name):
    return np.array(LATTICES[name], dtype=float)

def rng(*seed):
    import hashlib
    h = hashlib.sha1(repr(seed).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], 'little'))

def real(shape, *seed):
    """Generic real numbers away from zero with few decimals."""
    x = rng(shape, *seed).randint(1, 1000, size=shape) / 1000.0
    s = rng(shape, 's', *seed).randint(0, 2, size=shape) * 2 - 1
    return x * s

def cplx(shape, *seed):
    return real(shape, 're', *seed) + 1j * real(shape, 'im', *seed)

def positions(a, n, *seed):
    """Generic positions within unit cell, first atom off the origin."""
    frac = rng('tau', n, *seed).randint(5, 95, size=(n, 3)) / 100.0
    return frac @ a

def box(nmax):
    """All lattice vectors with bounded components."""
    return np.array(list(itertools.product(
        *[range(-n, n + 1) for n in nmax])), dtype=int).reshape((-1, 3))

def hermitian_R(R, data):
    """Enforce data(-R) = data(R)^+ ."""
    index = {tuple(r): n for n, r in enumerate(R)}
    new = np.empty_like(data)
    for r, n in index.items():
        m = index[tuple(-x for x in r)]
        new[n] = (data[n] + data[m].swapaxes(-2, -1).conj()) / 2
    return new

def el_model(e, size=2, nmax=(1, 1, 0), nk=(2, 2, 1), hermitian=True,
        rydberg=True, seed=0, order=None, scale=0.05):
    R = box(nmax)
    data = cplx((len(R), size, size), 'el', seed) * scale
    data *= np.exp(-0.5 * (R ** 2).sum(axis=1))[:, None, None]
    if hermitian:
        data = hermitian_R(R, data)
    perm = rng('perm', len(R), seed).permutation(len(R))
    el = e.el.Model(rydberg=rydberg)
    el.R = R[perm].copy()
    el.data = data[perm].copy()
    el.size = size
    el.nk = tuple(nk)
    return el

MASSES = [9000.0, 23000.0, 51000.0, 87000.0]
NAMES = ['Aa', 'Bb', 'Cc', 'Dd']

def ph_model(e, nat=2, nmax=(1, 1, 0), nq=(2, 2, 1), lat='tri', asr=False,
        divide_mass=True, seed=0, polar=False, Q=False, scale=0.1, integer=False,
        **kw):
    a = lattice(lat)
    R = box(nmax)
    size = 3 * nat
    data = real((len(R), size, size), 'ph', seed) * scale
    data *= np.exp(-0.7 * (R ** 2).sum(axis=1))[:, None, None]
    data = hermitian_R(R, data)
    M = np.array(MASSES[:nat])

    n0 = np.where(np.all(R == 0, axis=1))[0][0]

    if asr:
        # stable springs: on-site blocks balance the rest
        data -= 0.0
        total = data.reshape((len(R), nat, 3, nat, 3)).sum(axis=(0, 3))
        for n in range(nat):
            block = total[n]
            data[n0, 3 * n:3 * n + 3, 3 * n:3 * n + 3] -= block
        # on-site blocks remain symmetric only up to the antisymmetric part
        # of the sum; make the pairs symmetric instead
    else:
        data[n0] += np.eye(size) * scale * 8

    if divide_mass:
        m = np.repeat(M, 3)
        data = data / np.sqrt(m[:, None] * m[None, :])

    tau = positions(a, nat, lat, seed)
    if integer:
        tau = np.round(tau).astype(int)

    if polar:
        Z = real((nat, 3, 3), 'Z', seed)
        Z -= Z.mean(axis=0)
        eps = np.diag([2.5, 3.1, 4.2]) + 0.1 * (np.ones((3, 3)) - np.eye(3))
        kw.update(epsil=eps, zeu=Z, lr=True)
        kw.setdefault('lr2d', False)
        if Q:
            Qt = real((nat, 3, 3, 3), 'Q', seed)
            kw.update(Q=Qt + Qt.swapaxes(2, 3))

    ph = e.ph.Model(amass=M, at=a, tau=tau, atom_order=NAMES[:nat],
        divide_mass=divide_mass, **kw)
    perm = rng('perm', len(R), seed, 'ph').permutation(len(R))
    ph.R = R[perm].copy()
    ph.data = data[perm].copy()
    ph.l = np.zeros((len(R), nat, nat))
    ph.nq = tuple(nq)
    return ph

def hermitian_g(Rg, Rk, data):
    """Enforce g(R, R') = g(R - R', -R')^+ where both are present."""
    g = {tuple(r): n for n, r in enumerate(Rg)}
    k = {tuple(r): n for n, r in enumerate(Rk)}
    new = np.zeros_like(data)
    for r, n in g.items():
        for s, m in k.items():
            t = tuple(np.subtract(r, s)), tuple(-x for x in s)
            if t[0] in g and t[1] in k:
                new[n, :, m] = (data[n, :, m] + data[g[t[0]], :, k[t[1]]]
                    .swapaxes(-2, -1).conj()) / 2
    return new

def elph_model(e, el=None, ph=None, ng=(1, 0, 0), nk=(0, 1, 0), seed=0,
        hermitian=False, scale=0.01, divide_mass=True, shared_memory=False,
        **kw):
    el = el or el_model(e, seed=seed)
    ph = ph or ph_model(e, seed=seed, divide_mass=divide_mass)
    Rg = box(ng)
    Rk = box(nk)
    perm = rng('perm', len(Rg), seed, 'Rg').permutation(len(Rg))
    Rg = Rg[perm].copy()
    perm = rng('perm', len(Rk), seed, 'Rk').permutation(len(Rk))
    Rk = Rk[perm].copy()
    data = cplx((len(Rg), ph.size, len(Rk), el.size, el.size),
        'elph', seed) * scale
    if hermitian:
        data = hermitian_g(Rg, Rk, data)
    if divide_mass:
        data /= np.sqrt(np.repeat(ph.M, 3))[:, None, None, None]
    dk = np.ones((1, 1, len(Rk)), dtype=int)
    dg = np.ones((1, 1, 1, len(Rg)), dtype=int)
    elph = e.elph.Model(el=el, ph=ph, Rk=Rk, dk=dk, Rg=Rg, dg=dg,
        divide_mass=divide_mass, shared_memory=shared_memory, **kw)
    fill(e, elph, data)
    return elph

def fill(e, elph, data):
    """Provide data like constructor does when reading a file."""
    comm = e.MPI.comm
    if comm.rank == 0:
        elph.data[...] = data
    if elph.node.rank == 0:
        elph.images.Bcast(elph.data.view(dtype=float))
    comm.Barrier()
    elph.gq = np.empty((elph.ph.size, len(elph.Rk), elph.el.size,
        elph.el.size), dtype=complex)
    elph.Rk0 = e.misc.vector_index(elph.Rk, (0, 0, 0))

def elel_model(e, size=2, nmax=(1, 1, 0), seed=0):
    R = box(nmax)
    data = hermitian_R(R, cplx((len(R), size, size), 'elel', seed))
    perm = rng('perm', len(R), seed, 'elel').permutation(len(R))
    elel = e.elel.Model()
    elel.R = R[perm].copy()
    elel.data = data[perm].copy()
    elel.size = size
    return elel

# supercell definitions:

SUPERCELLS = dict(
    one=(1, 1, 1),
    x2=(2, 1, 1),
    y3=(1, 3, 1),
    xy=(2, 2, 1),
    z2=(1, 1, 2),
    r3=((1, 1, 0), (-1, 2, 0), 1),       # sqrt(3) x sqrt(3)
    sh=((1, 0, 0), (1, 2, 0), 1),
    neg=((0, 1, 0), (2, 0, 0), 1),       # left-handed, volume 2
    inv=(-1, 1, 1),                      # left-handed, volume 1
    gen=((1, 1, 0), (0, 1, 1), (1, 0, 1)),
    )
