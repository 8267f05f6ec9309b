"""C24: predefined models are what their defining functions say, and physical."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import importlib, itertools
import numpy as np

import elphmod.el, elphmod.ph, elphmod.elph, elphmod.elel
import elphmod.models.chain, elphmod.models.graphene, elphmod.models.tas2

from mc.common import Check, require, close, equal, digest, quiet

elphmod.misc.verbosity = 0

check = Check('C24', 'exploration',
    rule='all predefined models, all options, all pairs of q and k points of a '
    'mesh that is finer than and incommensurate with those of the models, and '
    'all operations of the point group; oracles: defining functions, own '
    'derivatives of bond-dependent hopping, symmetry, and sum rules; trivial: '
    'points of the mesh used to create the model')

MODELS = dict(chain=elphmod.models.chain, graphene=elphmod.models.graphene,
    tas2=elphmod.models.tas2)

Ry = elphmod.misc.Ry
NAT = dict(chain=1, graphene=2, tas2=3)
NEL = dict(chain=1, graphene=2, tas2=3)
MASS = dict(
    chain=[1.0], graphene=[12.011] * 2, tas2=[180.95, 32.06, 32.06])
ATOMS = dict(chain=['X'], graphene=['C', 'C'], tas2=['Ta', 'S', 'S'])

OPTIONS = [dict(rydberg=rydberg, divide_mass=divide_mass)
    for rydberg in (False, True) for divide_mass in (False, True)]

cache = {}

def created(name, rydberg=False, divide_mass=True):
    key = name, rydberg, divide_mass
    if key not in cache:
        with quiet():
            cache[key] = MODELS[name].create(rydberg=rydberg,
                divide_mass=divide_mass)
    return cache[key]

def points(name, n):
    """Mesh with offset-free and irrational coordinates."""
    base = [2 * np.pi * i / n for i in range(n)] + [0.1, -1.7, 9.3]
    if name == 'chain':
        return [(x, 0.0, 0.0) for x in base]
    return [(x, y, 0.0) for x, y in itertools.product(base, repeat=2)]

def functions(name):
    m = MODELS[name]
    out = dict(H=m.hamiltonian, D=m.dynamical_matrix, g=m.coupling)
    if name == 'graphene':
        out['U'] = m.coulomb_interaction
    return out

@check.family
def local(ctx, name, rydberg, divide_mass, n):
    """Hamiltonian, dynamical matrix, Coulomb interaction, and geometry."""

    models = created(name, rydberg, divide_mass)
    m = MODELS[name]
    el, ph, elph = models[:3]
    f = functions(name)
    require(elph.el is el and elph.ph is ph, 'models do not belong together')
    equal(el.size, NEL[name], 'size')
    equal(ph.size, 3 * NAT[name], 'size')
    equal(ph.nat, NAT[name], 'number of atoms')
    equal(list(ph.atom_order), ATOMS[name], 'atoms')
    mass = np.array(MASS[name]) * elphmod.misc.uRy
    close(ph.M, mass, 'masses', rel=1e-9)
    close(ph.a, m.at, 'lattice vectors')
    close(ph.r, m.r, 'atoms')
    unit = 1.0 if rydberg else Ry
    w = np.ones((ph.size, ph.size))
    if not divide_mass:
        M = np.repeat(mass, 3)
        w = np.sqrt(M[:, None] * M[None, :])
    out = []
    for k in points(name, n):
        close(el.H(*k), f['H'](*k) * unit, 'Hamiltonian at %s' % (k,),
            tol=1e-11)
        D = np.array(f['D'](*k)) * w
        close(ph.D(*k), D, 'dynamical matrix at %s' % (k,),
            tol=1e-11 * abs(w).max())
        if 'U' in f:
            close(models[3].W(*k), f['U'](*k) * Ry, 'interaction', tol=1e-10)
        out.append(el.H(*k))
        ctx.add('evaluations')
    ctx.outcome((name, rydberg, divide_mass, digest(np.array(out))), n > 3)

@check.family
def coupling(ctx, name, divide_mass, n, part):
    el, ph, elph = created(name, True, divide_mass)[:3]
    f = functions(name)
    P = points(name, n)
    w = np.ones(ph.size)
    if not divide_mass:
        w = np.sqrt(np.repeat(ph.M, 3))
    out = []
    for q in P[part[0]::part[1]]:
        for k in P:
            want = np.array(f['g'](*q, *k)) * w[:, None, None]
            close(elph.g(*q, *k), want, 'coupling at %s %s' % (q, k),
                tol=1e-11 * max(1, w.max()))
            ctx.add('evaluations')
        out.append(want)
    ctx.outcome((name, divide_mass, part, digest(np.array(out))), n > 3)

def bonds(name):
    """Hopping for displaced atoms: {R: (a, b, function of bond vector)}."""

    m = MODELS[name]
    at = np.array(m.at)
    r = np.array(m.r)
    length = np.linalg.norm(at[0])

    out = []
    for R in itertools.product((-2, -1, 0, 1, 2), repeat=2):
        if name == 'graphene':
            for a, b in ((0, 1), (1, 0)):
                d = np.array([*R, 0]) @ at + r[b] - r[a]
                d0 = length / np.sqrt(3)
                if abs(np.linalg.norm(d) - d0) < 1e-6:
                    def t(d, a=a, b=b, d0=d0):
                        T = np.zeros((2, 2))
                        T[a, b] = m.t * (np.linalg.norm(d) / d0) ** -m.beta
                        return T
                    out.append(((*R, 0), a, b, d, t))
        elif name == 'tas2':
            d = np.array([*R, 0]) @ at
            if abs(np.linalg.norm(d) - length) < 1e-6:
                n = int(round(np.degrees(np.arctan2(d[1], d[0])) / 60)) % 6
                def t(d, n=n):
                    # rotated bonds; every other one is reversed:
                    c, s = d[:2] / np.linalg.norm(d)
                    if n % 2:
                        c, s = -c, -s
                    # d orbitals turn by twice the angle:
                    U = np.array([[1, 0, 0], [0, c * c - s * s, -2 * c * s],
                        [0, 2 * c * s, c * c - s * s]])
                    T = U @ (m.t0.T if n % 2 else m.t0) @ U.T
                    return T * (np.linalg.norm(d) / length) ** -m.beta
                out.append(((*R, 0), 0, 0, d, t))
    return out

@check.family
def derivative(ctx, name, n, part):
    """Coupling is change of Hamiltonian when atoms are displaced."""

    el, ph, elph = created(name, True, False)[:3]
    B = bonds(name)
    equal(len(B), 6, 'number of bonds')
    h = 1e-4
    grad = []
    for R, a, b, d, t in B:
        grad.append([(8 * t(d + h * e) - 8 * t(d - h * e)
            - t(d + 2 * h * e) + t(d - 2 * h * e)) / (12 * h)
            for e in np.eye(3)])
    P = points(name, n)
    out = []
    for k in P[part[0]::part[1]]:
        H = sum(t(d) * np.exp(1j * np.dot(k, R)) for R, a, b, d, t in B)
        if name == 'tas2':
            H = H + MODELS[name].e0
        close(el.H(*k), H, 'Hamiltonian', tol=1e-11)
        for q in P:
            g = np.zeros((ph.size, el.size, el.size), dtype=complex)
            for (R, a, b, d, t), G in zip(B, grad):
                kR, qR = np.dot(k, R), np.dot(q, R)
                for x in range(3):
                    g[3 * b + x] += G[x] * np.exp(1j * (kR + qR))
                    g[3 * a + x] -= G[x] * np.exp(1j * kR)
            close(elph.g(*q, *k), g, 'coupling at %s %s' % (q, k), tol=1e-9)
            ctx.add('evaluations')
        out.append(g)
    ctx.outcome((name, part, digest(np.array(out))), n > 3)

@check.family
def rules(ctx, name, n):
    """Hermiticity, time reversal, periodicity, sum rules, and stability."""

    models = created(name)
    el, ph, elph = models[:3]
    m = np.repeat(ph.M, 3) ** 0.5
    for k in points(name, n):
        mk = tuple(-x for x in k)
        G = (k[0] + 2 * np.pi, k[1] - 4 * np.pi, k[2] + 2 * np.pi)
        for X in [el.H, ph.D] + [x.W for x in models[3:]]:
            A = X(*k)
            close(A, A.conj().T, 'Hermitian', tol=1e-12)
            close(X(*mk), A.conj(), 'time reversal', tol=1e-12)
            close(X(*G), A, 'periodic', tol=1e-11)
        w2 = np.linalg.eigvalsh(ph.D(*k)) / np.abs(ph.D(np.pi)).max()
        require(w2.min() > -1e-9, 'unstable phonon at %s: %g' % (k, w2.min()))
        ctx.add('evaluations')

    # rigid displacements cost no energy and do not couple:
    for x in range(3):
        T = np.zeros(ph.size)
        T[x::3] = 1
        close(ph.D() @ (m * T), np.zeros(ph.size), 'acoustic sum rule', tol=1e-10)
        for k in points(name, n):
            g = elph.g(0, 0, 0, *k)
            close(np.einsum('xab,x->ab', g, m * T),
                np.zeros((el.size, el.size)), 'acoustic sum rule',
                tol=1e-9)
            ctx.add('evaluations')
    if name == 'graphene': # rigid rotation, all three axes
        for axis in np.eye(3):
            for i in range(ph.nat):
                F = np.zeros(3)
                for R, phi in zip(ph.R, ph.data):
                    for j in range(ph.nat):
                        d = R @ ph.a + ph.r[j] - ph.r[i]
                        block = phi[3 * i:3 * i + 3, 3 * j:3 * j + 3]
                        F += block * m[3 * i] * m[3 * j] @ np.cross(axis, d)
                close(F, np.zeros(3), 'rotational sum rule', tol=1e-7)
    ctx.outcome((name, n, digest(ph.D(1.0, 2.0))), True)

@check.family
def exchange(ctx, name, n):
    """Coupling for opposite momentum transfer."""

    elph = created(name)[2]
    P = points(name, n)
    for q, k in itertools.product(P, repeat=2):
        g = elph.g(*q, *k)
        kq = np.add(k, q)
        back = elph.g(*np.negative(q), *kq)
        close(back, g.swapaxes(1, 2).conj(), 'Hermitian conjugate', tol=1e-12)
        close(elph.g(*np.negative(q), *np.negative(k)), g.conj(),
            'time reversal', tol=1e-12)
        ctx.add('evaluations')
    ctx.outcome((name, n, digest(g)), True)

def operations(name):
    """(matrix for crystal momentum, Cartesian matrix) of point group."""

    if name == 'chain':
        return [(np.diag([-1, 1, 1]), np.diag([-1, 1, 1]))]
    at = np.array(MODELS[name].at)
    ops = []
    c, s = np.cos(np.pi / 3), np.sin(np.pi / 3)
    rot = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    mir = np.diag([-1.0, 1, 1]) # leaves TaS2 trigonal prism invariant?
    for n in range(6):
        for flip in (0, 1):
            S = np.linalg.matrix_power(rot, n)
            if flip:
                S = S @ mir
            # rows of at @ S.T are integer combinations of rows of at:
            I = at @ S.T @ np.linalg.inv(at)
            require(np.allclose(I, np.round(I), atol=1e-9), 'own error')
            # k.R with R' = R I => k' = I^-1 ... in crystal coordinates
            ops.append((np.round(np.linalg.inv(I)).astype(int), S))
    return ops

def group(name):
    """Operations that map atoms onto each other, with permutation."""

    m = MODELS[name]
    at, r = np.array(m.at), np.array(m.r)
    out = []
    for K, S in operations(name):
        found = None
        # allow for any origin such that structure is mapped onto itself
        for shift in r:
            new = (r - r[0]) @ S.T + shift
            perm, cells = [], []
            for x in new:
                for j, y in enumerate(r):
                    d = (x - y) @ np.linalg.inv(at)
                    if np.allclose(d, np.round(d), atol=1e-6) and (
                            ATOMS[name][j] == ATOMS[name][len(perm)]):
                        perm.append(j)
                        cells.append(np.round(d).astype(int))
                        break
            if len(perm) == len(r) and found is None:
                found = perm, cells
        if found:
            out.append((K, S, *found))
    return out

@check.family
def symmetry(ctx, name, n):
    """Dynamical matrix and invariants of other quantities."""

    models = created(name)
    el, ph, elph = models[:3]
    ops = group(name)
    require(len(ops) == dict(chain=1, graphene=12, tas2=6)[name],
        'point group of %d elements' % len(ops))
    P = points(name, n)
    for K, S, perm, cells in ops:
        for k in P:
            # atom i in cell R goes to atom perm[i] in cell R I + cells[i]
            kk = K @ np.array(k)
            Gamma = np.zeros((ph.size, ph.size), dtype=complex)
            for i, j in enumerate(perm):
                Gamma[3 * j:3 * j + 3, 3 * i:3 * i + 3] = S * np.exp(
                    -1j * np.dot(kk, cells[i]))
            want = Gamma @ ph.D(*k) @ Gamma.conj().T
            close(ph.D(*kk), want, 'dynamical matrix %s -> %s' % (k, kk),
                tol=1e-12)
            close(np.linalg.eigvalsh(el.H(*kk)), np.linalg.eigvalsh(el.H(*k)),
                'bands', tol=1e-10)
            for x in models[3:]:
                close(np.linalg.eigvalsh(x.W(*kk)),
                    np.linalg.eigvalsh(x.W(*k)), 'interaction', tol=1e-10)
            ctx.add('evaluations')
        def strength(q, k):
            g = abs(elph.g(*q, *k)) ** 2
            return g.reshape((ph.nat, -1)).sum(axis=1)
        for q, k in itertools.product(P[::2], P[::3]):
            a = strength(q, k)
            b = strength(K @ np.array(q), K @ np.array(k))
            close(b[perm], a, 'coupling strength', tol=1e-14, rel=1e-8)
            ctx.add('evaluations')
    ctx.outcome((name, n, len(ops)), True)

@check.family
def files(ctx, name, rydberg, divide_mass, prefix):
    """Written files hold the same models and units."""

    m = MODELS[name]
    if '/' in prefix:
        os.makedirs(os.path.dirname(prefix), exist_ok=True)
    with quiet():
        models = m.create(prefix, rydberg=rydberg, divide_mass=divide_mass)
        el, ph, elph = models[:3]
        base = os.path.basename(prefix)
        want = {base + x for x in ('_hr.dat', '.ifc', '.epmatwp', '.wigner')}
        if name == 'graphene':
            want.add(base + '.Wmat')
        got = {x for x in os.listdir(os.path.dirname(prefix) or '.')
            if x.startswith(base)}
        equal(got, want, 'files')
        for ry2, div2 in itertools.product((False, True), repeat=2):
            el2 = elphmod.el.Model(prefix, rydberg=ry2)
            ph2 = elphmod.ph.Model(prefix + '.ifc', divide_mass=div2)
            elph2 = elphmod.elph.Model(prefix + '.epmatwp',
                prefix + '.wigner', el2, ph2, divide_mass=div2)
            ref = created(name, ry2, div2)
            scale = 1 if div2 else np.sqrt(max(ph.M))
            for q, k in itertools.product(points(name, 2), repeat=2):
                close(el2.H(*k), ref[0].H(*k), 'Hamiltonian', tol=2e-5)
                close(ph2.D(*q), ref[1].D(*q), 'dynamical matrix',
                    tol=1e-8 * scale ** 2)
                close(elph2.g(*q, *k), ref[2].g(*q, *k), 'coupling',
                    tol=1e-10, rel=1e-8)
                ctx.add('evaluations')
            close(ph2.M, ph.M, 'masses', rel=1e-8)
            close(ph2.a, ph.a, 'lattice vectors', tol=1e-6)
            close(ph2.r, ph.r, 'atoms', tol=1e-6)
            equal(list(ph2.atom_order), ATOMS[name], 'atoms')
        if name == 'graphene':
            elel2 = elphmod.elel.Model(Wmat=prefix + '.Wmat')
            for q in points(name, 4):
                close(elel2.W(*q), models[3].W(*q), 'interaction', tol=2e-5)
    ctx.outcome((name, rydberg, divide_mass, prefix, len(want)), True)

@check.cases
def enumerate_cases(tier):
    n1, n2 = (32, 12) if tier == 'quick' else (64, 24)
    for name in MODELS:
        for option in OPTIONS:
            yield 'local', dict(name=name, n=n1, **option)
            for prefix in ('x', 'some.name', 'sub/dir'):
                yield 'files', dict(name=name, prefix=prefix, **option)
        nn = n1 if name == 'chain' else 4 if tier == 'quick' else 9
        parts = 1 if name == 'chain' else 12
        for part in range(parts):
            for divide_mass in (False, True):
                yield 'coupling', dict(name=name, divide_mass=divide_mass,
                    n=nn, part=(part, parts))
            if name != 'chain':
                yield 'derivative', dict(name=name, n=nn, part=(part, parts))
        yield 'rules', dict(name=name, n=n2)
        yield 'exchange', dict(name=name, n=nn)
        yield 'symmetry', dict(name=name, n=n2 if name == 'chain' else
            3 if tier == 'quick' else 6)

check.main()
