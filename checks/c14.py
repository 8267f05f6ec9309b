"""C14: sum rules and separation of long-range terms."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math
import numpy as np

import elphmod.bravais, elphmod.el, elphmod.elph, elphmod.ph

from mc import gen, ref
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C14', 'model_checking',
    rule='all sequences of changes of long-range parameters up to length 3, '
    'each followed by an update of the short-range part; all lattices, sizes, '
    'conventions; states: parameter settings reached; oracle: original '
    'matrices, least-squares projection onto sum rules, explicit lattice sums; '
    'trivial: no long-range term or sum rule already fulfilled')

def masses(ph):
    return np.repeat(ph.M, 3)

def undivided(ph):
    """Force constants without masses."""

    m = np.sqrt(masses(ph))
    return ph.data * np.outer(m, m) if ph.divide_mass else ph.data.copy()

# --- sum rules

def constraints(ph, asr, rsr):
    """Linear functionals of force constants that should vanish."""

    R = ph.R @ ph.a
    n, nat = len(R), ph.nat
    rows = []
    for k, x, y in itertools.product(range(nat), range(3), range(3)):
        if asr:
            c = np.zeros((n, nat, 3, nat, 3))
            c[:, k, x, :, y] = 1
            rows.append(c.ravel())
    for k, y in itertools.product(range(nat), range(3)):
        for x1, x2 in (0, 1), (0, 2), (1, 2):
            if rsr:
                c = np.zeros((n, nat, 3, nat, 3))
                for i, l in itertools.product(range(n), range(nat)):
                    c[i, k, x1, l, y] += R[i, x2] + ph.r[l, x2]
                    c[i, k, x2, l, y] -= R[i, x1] + ph.r[l, x1]
                rows.append(c.ravel())
    return np.array(rows).reshape((len(rows), n * nat * 3 * nat * 3))

@check.family
def correction(ctx, lat, nat, nmax, divide_mass, asr, rsr):
    """Sum-rule correction is the smallest symmetric one."""

    ph = gen.ph_model(elphmod, nat=nat, nmax=nmax, lat=lat,
        divide_mass=divide_mass)
    before = undivided(ph)
    R = ph.R.copy()
    elphmod.ph.sum_rule_correction(ph, asr=asr, rsr=rsr)
    after = undivided(ph)
    equal(ph.R.tolist(), R.tolist(), 'lattice vectors')
    scale = abs(before).max()

    minus = [np.where(np.all(R == -r, axis=1))[0][0] for r in R]
    close(after[minus].swapaxes(1, 2), after, 'symmetry of force constants',
        tol=1e-9 * scale)

    A = constraints(ph, asr, rsr)
    s = np.linalg.norm(A, axis=1)
    if len(A):
        close(A @ after.ravel() / s, np.zeros(len(A)), 'sums',
            tol=1e-8 * scale)

    # constraints in space of symmetric force constants
    n = len(R)
    S = A.reshape((-1, n, 3 * nat, 3 * nat))
    S = (S + S[:, minus].swapaxes(2, 3)) / 2
    S = S.reshape((-1, before.size))
    delta = before.ravel() - after.ravel()
    if len(S):
        S = S / np.linalg.norm(S, axis=1).clip(1e-300)[:, None]
        u, w, vt = np.linalg.svd(S, full_matrices=False)
        vt = vt[w > 1e-9 * w.max()]
        close(delta, vt.T @ (vt @ before.ravel()), 'correction',
            tol=1e-7 * scale)
    else:
        close(delta, np.zeros(delta.size), 'correction', tol=1e-12)

    if asr:
        m = np.sqrt(masses(ph))
        D0 = ph.D() * (np.outer(m, m) if divide_mass else 1)
        for x in range(3):
            close(D0 @ np.tile(np.eye(3)[x], nat), np.zeros(3 * nat),
                'force on translated crystal', tol=1e-8 * scale)

    # nothing left to correct:
    again = ph.data.copy()
    elphmod.ph.sum_rule_correction(ph, asr=asr, rsr=rsr, report=False)
    close(ph.data, again, 'second correction', tol=1e-9 * abs(again).max())
    ctx.outcome((lat, nat, nmax, divide_mass, asr, rsr, ph.data * 1e3),
        asr or rsr)

@check.family
def simple(ctx, nat, nq):
    """Simple correction only changes self force constants."""

    phid = gen.real((nat, nat, *nq, 3, 3), 'simple')
    new = phid.copy()
    elphmod.ph.asr(new)
    close(new.sum(axis=(1, 2, 3, 4)), np.zeros((nat, 3, 3)), 'acoustic sum',
        tol=1e-10)
    change = new != phid
    for i in range(nat):
        change[i, i, 0, 0, 0] = False
    require(not change.any(), 'other force constants changed')
    again = new.copy()
    elphmod.ph.asr(again)
    close(again, new, 'second correction')
    ctx.outcome((nat, nq, new), math.prod(nq) * nat > 1)

@check.family
def charges(ctx, nat, form):
    """Neutral charges."""

    amass, at = np.array(gen.MASSES[:nat]), gen.lattice('tri')
    tau = gen.positions(at, nat, 'charges')
    eps = np.diag([2.0, 3.0, 4.0])
    Z = np.round(gen.real((nat, 3, 3), 'Z'), 3)
    if form == 'function':
        z = Z.copy()
        elphmod.ph.zasr(z)
    else:
        phid = gen.real((nat, nat, 1, 1, 1, 3, 3), 'phid')
        elphmod.ph.write_flfrc('ifc', phid, amass, at, tau, gen.NAMES[:nat],
            1.0, eps, Z)
        m = elphmod.ph.Model('ifc', apply_zasr=True, lr2d=False,
            divide_mass=form == 'mass')
        z = m.Z
        close(elphmod.ph.Model('ifc', lr2d=False).Z, Z, 'charges', tol=1e-6)
        close(m.z, z / np.sqrt(amass)[:, None, None] if form == 'mass' else z,
            'charges divided by mass')
    close(z.sum(axis=0), np.zeros((3, 3)), 'total charge', tol=1e-10)
    d = Z - z
    close(d, [d[0]] * nat, 'correction same for all atoms', tol=1e-6)
    ctx.outcome((nat, form, z), nat > 1)

@check.family
def from_file(ctx, lat, nat, nq, divide_mass, which, polar):
    """Sum rules applied when reading or transforming force constants."""

    at = gen.lattice(lat)
    amass, tau = np.array(gen.MASSES[:nat]), gen.positions(at, nat, 'file')
    phid = gen.real((nat, nat, *nq, 3, 3), 'phid')
    # force constants are symmetric
    for i in itertools.product(*map(range, nq)):
        j = tuple(-x % n for x, n in zip(i, nq))
        a = phid[(slice(None), slice(None)) + i].copy()
        b = phid[(slice(None), slice(None)) + j].copy()
        phid[(slice(None), slice(None)) + i] = (a
            + b.transpose((1, 0, 3, 2))) / 2
        phid[(slice(None), slice(None)) + j] = (b
            + a.transpose((1, 0, 3, 2))) / 2
    eps = np.diag([2.0, 3.0, 4.0])
    Z = gen.real((nat, 3, 3), 'Z') if polar else None
    elphmod.ph.write_flfrc('ifc', phid, amass, at, tau, gen.NAMES[:nat],
        1.0, eps if polar else None, Z)
    kw = {'apply_' + which: True}
    m = elphmod.ph.Model('ifc', divide_mass=divide_mass, lr2d=False, **kw)
    equal(m.lr, polar, 'long-range terms')
    s = np.sqrt(masses(m))
    D = m.D() * (np.outer(s, s) if divide_mass else 1)
    for x in range(3):
        close(D @ np.tile(np.eye(3)[x], nat), np.zeros(3 * nat),
            'force on translated crystal', tol=1e-7)
    plain = elphmod.ph.Model('ifc', divide_mass=divide_mass, lr2d=False)
    if which == 'asr_simple':
        off = [i for i, r in enumerate(m.R) if r.any()]
        close(m.data[off], plain.data[off], 'other force constants')
    if not polar and which == 'asr': # simple correction is not symmetric
        w = np.linalg.eigvalsh(m.D())
        require(sorted(abs(w))[2] < 1e-6 * abs(w).max(initial=1e-3) + 1e-9,
            'three modes at zero frequency: %s', w)
    ctx.outcome((lat, nat, nq, divide_mass, which, polar, m.data * 1e3))

@check.family
def coupling(ctx, size, nat, ng, nk, divide_mass, unit=1.0):
    """Acoustic sum rule of coupling."""

    g = gen.elph_model(elphmod, gen.el_model(elphmod, size=size),
        gen.ph_model(elphmod, nat=nat, divide_mass=divide_mass), ng=ng, nk=nk,
        divide_mass=divide_mass)
    g.data[..., 0, 0][g.data[..., 0, 0].real > 0] = 0
    g.data *= unit
    data = g.data.copy()
    m = np.sqrt(masses(g.ph)) if divide_mass else np.ones(3 * nat)
    g.g(0.3, 0.2)
    g.asr()
    equal(g.data.shape, data.shape, 'shape')
    require(not g.data[data == 0].any(), 'vanishing elements changed')
    scale = abs(data).max() * m.max()
    for k in (0, 0, 0), (0.4, 1.1, -0.3):
        total = (g.g(0, 0, 0, *k) * m[:, None, None]).reshape((nat, 3, size,
            size)).sum(axis=0)
        close(total, np.zeros((3, size, size)), 'coupling to translation',
            tol=1e-9 * scale)
    if data.any():
        rel = abs(g.data - data) / np.where(data == 0, 1, abs(data))
        rel = (rel * m[:, None, None, None]
            / m[:, None, None, None]).reshape((len(g.Rg), nat, 3, len(g.Rk),
            size, size))
        rel = np.where((data == 0).reshape(rel.shape), np.nan, rel)
        for i in itertools.product(range(3), range(len(g.Rk)), range(size),
                range(size)):
            r = rel[:, :, i[0], i[1], i[2], i[3]]
            r = r[np.isfinite(r)]
            if len(r):
                close(r, [r[0]] * len(r), 'relative change', tol=1e-8)
    ctx.outcome((size, nat, ng, nk, divide_mass, unit, g.data / unit * 1e3))

# --- long-range terms

def long_range(ph, q, perp=None):
    """Explicit lattice sum: prefactors and vectors (no constant part)."""

    a = ph.a
    b = 2 * np.pi * np.linalg.inv(a).T
    scale = 4 * ph.alpha * (2 * np.pi / np.linalg.norm(a[0])) ** 2
    q = np.dot(q, b) / (2 * np.pi)
    # all terms above 1E-16 or so
    eps_min = 1 if ph.lr2d else np.linalg.eigvalsh((ph.eps + ph.eps.T)
        / 2).min()
    cut = math.sqrt(scale * 37 / eps_min) + np.linalg.norm(q)
    n = [int(cut * np.linalg.norm(a[i]) / (2 * np.pi)) + 1 for i in range(3)]
    if ph.lr2d:
        n[2] = 0
    vol = abs(np.linalg.det(a))
    area = np.linalg.norm(np.cross(a[0], a[1]))
    r2d = (ph.eps - np.eye(3)) * a[2, 2] / 2

    G = np.array(list(itertools.product(*[range(-i, i + 1) for i in n]))) @ b
    M = ph.M if ph.divide_mass else np.ones(ph.nat)
    factors, vectors = [], []
    for K in G + q:
        k = np.linalg.norm(K)
        if k < 1e-5:
            continue
        if not ph.lr2d:
            KeK = K @ ph.eps @ K
            f = 4 * np.pi * 2 / vol * math.exp(-KeK / scale) / KeK
        elif ph.L is None:
            f = (2 * np.pi * 2 / area * math.exp(-k ** 2 / scale)
                / (k + K[:2] @ r2d[:2, :2] @ K[:2]))
        else:
            F = 1 - math.tanh(k * ph.L / 2)
            if F < 1e-15:
                continue
            f = (2 * np.pi * 2 / area * F / k
                / (1 + F / k * (K[:2] @ r2d[:2, :2] @ K[:2])))
            g = (-2 * np.pi * 2 / area * F / k / (1 - F * k * r2d[2, 2]))

        phase = np.exp(-1j * ph.r @ K)
        v = 1j * np.einsum('e,neu->nu', K, ph.Z)
        if ph.Q is not None:
            v = v + 0.5 * np.einsum('x,nuxy,y->nu', K, ph.Q, K)
            if ph.lr2d and ph.L is not None:
                v = v - 0.5 * k ** 2 * ph.Q[:, :, 2, 2]
        factors.append(f)
        vectors.append((v * phase[:, None] / np.sqrt(M)[:, None]).ravel())
        if ph.lr2d and ph.L is not None and (ph.perp if perp is None
                else perp):
            v = 1j * k * ph.Z[:, 2, :]
            if ph.Q is not None:
                v = v + k * np.einsum('nuy,y->nu', ph.Q[:, :, 2, :2], K[:2])
            factors.append(g)
            vectors.append((v * phase[:, None] / np.sqrt(M)[:, None]).ravel())
    return np.array(factors), np.array(vectors)

def polar(lat, nat, nq=(2, 2, 1), divide_mass=True, L=None, Q=False,
        lr2d=False, **kw):
    ph = gen.ph_model(elphmod, nat=nat, nmax=[(n - 1) // 2 for n in nq], nq=nq,
        lat=lat, divide_mass=divide_mass, polar=True, Q=Q, L=L, lr2d=lr2d, **kw)
    return ph

QS = [(0.0, 0.0, 0.0), (0.7, -0.4, 0.0), (math.pi, 0.0, 0.0), (2.0, 1.9, 0.9)]

@check.family
def lattice_sum(ctx, lat, nat, divide_mass, kind, Q, perp):
    """Dipole and quadrupole terms equal explicit lattice sums."""

    ph = polar(lat, nat, divide_mass=divide_mass, Q=Q, lr2d=kind != '3d',
        L=9.0 if kind == 'L' else None, perp=perp)
    tol = 1e-6
    m = np.sqrt(masses(ph))
    mm = np.outer(m, m) if divide_mass else np.ones((3 * nat, 3 * nat))

    unit = abs(ph.D_lr(*QS[1]) * mm).max()

    for q in QS:
        if kind != '3d' and q[2]:
            continue
        f, v = long_range(ph, q)
        want = np.einsum('g,gi,gj->ij', f, v.conj(), v)
        got = ph.D_lr(*q) - ph.D0_lr
        close(got * mm, want * mm, 'long-range term for %s' % (q,),
            tol=tol * unit)
        close(got, got.conj().T, 'Hermiticity', tol=1e-12)
        close(ph.D_lr(*[-x for x in q]), ph.D_lr(*q).conj(), 'time reversal',
            tol=1e-12)
        D = np.einsum('Rxy,R->xy', ph.data, np.exp(1j * ph.R.dot(q)))
        close(ph.D(*q), D + ph.D_lr(*q), 'dynamical matrix')

        # coupling
        el = gen.el_model(elphmod)
        g = gen.elph_model(elphmod, el, ph, divide_mass=divide_mass)
        f, v = long_range(ph, q, perp=False)
        want = np.einsum('g,gi->i', f, v)
        got = g.g_lr(*q)
        md = m if divide_mass else np.ones(3 * nat)
        close(got * md, want * md, 'long-range coupling for %s' % (q,),
            tol=tol * abs(want * md).max())
        k = (0.3, 1.0, -0.2)
        G = sum(g.data[i, :, j] * np.exp(1j * (np.dot(q, g.Rg[i])
            + np.dot(k, g.Rk[j]))) for i, j in
            itertools.product(range(len(g.Rg)), range(len(g.Rk))))
        for a in range(el.size):
            G[:, a, a] += got
        close(g.g(*q, *k), G, 'coupling', tol=1e-10)

    # translation
    D = ph.D_lr() * mm
    for x in range(3):
        close(D @ np.tile(np.eye(3)[x], nat), np.zeros(3 * nat),
            'force on translated crystal', tol=1e-9 * unit)

    # direction-dependent limit
    b = 2 * np.pi * np.linalg.inv(ph.a).T
    M = ph.M if divide_mass else np.ones(nat)
    for d in (1, 0, 0), (0, 1, 0), (2, 1, 0), (1, -1, 1):
        if kind != '3d' and d[2]:
            continue
        t = 1e-4
        q = t * np.array(d)
        K = q @ b / (2 * np.pi)
        zK = (np.einsum('e,neu->nu', K, ph.Z)
            / np.sqrt(M)[:, None]).ravel()
        if kind == '3d':
            want = (8 * np.pi / abs(np.linalg.det(ph.a)) * np.outer(zK, zK)
                / (K @ ph.eps @ K))
        else:
            area = np.linalg.norm(np.cross(ph.a[0], ph.a[1]))
            k = np.linalg.norm(K)
            want = 4 * np.pi / area * np.outer(zK, zK) / k
            if kind == 'L' and perp:
                zz = (ph.Z[:, 2] / np.sqrt(M)[:, None]).ravel()
                want -= 4 * np.pi / area * k * np.outer(zz, zz)
        got = (ph.D_lr(*q) + ph.D_lr(*-q)) / 2 - ph.D_lr()
        close(got * mm, want * mm, 'limit along %s' % (d,),
            tol=5e-3 * abs(want * mm).max() + 300 * t ** 2 * unit)
    ctx.outcome((lat, nat, divide_mass, kind, Q, perp, got * 1e6))

# --- histories

OPS = dict(
    Z=lambda ph: setattr(ph, 'Z', ph.Z * 1.3 + 0.1),
    Q=lambda ph: setattr(ph, 'Q', None if ph.Q is not None else
        symmetrized(gen.real((ph.nat, 3, 3, 3), 'newQ'))),
    alpha=lambda ph: setattr(ph, 'alpha', ph.alpha * 0.7),
    eps=lambda ph: setattr(ph, 'eps', ph.eps + 0.4 * np.eye(3)),
    L=lambda ph: setattr(ph, 'L', 8.0 if ph.L is None else ph.L + 1.5),
    lr=lambda ph: setattr(ph, 'lr', not ph.lr),
    lr2d=lambda ph: setattr(ph, 'lr2d', not ph.lr2d),
    perp=lambda ph: setattr(ph, 'perp', not ph.perp),
    )

def symmetrized(Q):
    return Q + Q.swapaxes(2, 3)

def coupled(lat, nat, nq, nk, divide_mass, polar_, lr2d, Q, size=2):
    """Models with complete Wigner-Seitz cells."""

    ph = gen.ph_model(elphmod, nat=nat, nmax=[(n - 1) // 2 for n in nq], nq=nq,
        lat=lat, divide_mass=divide_mass, polar=True, Q=Q, lr2d=lr2d)
    ph.lr = polar_
    el = gen.el_model(elphmod, size=size, nk=nk)
    g = elphmod.elph.Model(el=el, ph=ph, divide_mass=divide_mass)
    r = gen.positions(ph.a, size, 'orbitals')
    data = gen.cplx((*nq, ph.size, *nk, size, size), 'coupled') * 0.01
    elphmod.elph.q2r(g, nq, nk, data, r, divide_mass=divide_mass)
    return el, ph, g

@check.family
def history(ctx, lat, nat, nq, nk, divide_mass, polar_, lr2d, Q, ops):
    """Results on original mesh survive all changes."""

    el, ph, g = coupled(lat, nat, nq, nk, divide_mass, polar_, lr2d, Q)
    qs = [2 * np.pi * np.array(q) / nq for q in
        itertools.product(*map(range, nq))]
    ks = [2 * np.pi * np.array(k) / nk for k in
        itertools.product(*map(range, nk))]
    ph.sample_orig()
    g.sample_orig()
    D0 = np.array([ph.D(*q) for q in qs])
    g0 = np.array([[g.g(*q, *k) for k in ks] for q in qs])
    off = [0.8, 0.3, 0.0]
    m = np.sqrt(masses(ph)) if divide_mass else np.ones(ph.size)
    mm = np.outer(m, m)
    unit = max(abs(D0 * mm).max(), abs(ph.D_lr(*off) * mm).max() if ph.lr
        else 0)
    ug = abs(g0 * m[:, None, None]).max()
    seen = set()

    for op in ops:
        OPS[op](ph)
        if (op == 'lr' or op == 'Z') and not g.q is None:
            order = 'gp'
        else:
            order = 'pg'
        for x in order:
            (ph if x == 'p' else g).update_short_range()
        ctx.states += 1
        ctx.transitions += 1
        state = 'after %s' % ', '.join(ops)
        unit = max(unit, abs(ph.D_lr(*off) * mm).max() if ph.lr else 0)
        if ph.lr:
            ug = max(ug, abs(g.g_lr(*off) * m).max())
        for i, q in enumerate(qs):
            close(ph.D(*q) * mm, D0[i] * mm, 'dynamical matrix %s' % state,
                tol=5e-5 * unit)
            for j, k in enumerate(ks):
                close(g.g(*q, *k) * m[:, None, None], g0[i, j]
                    * m[:, None, None], 'coupling %s' % state, tol=5e-5 * ug)
        # off the mesh: data plus current long-range part
        D = np.einsum('Rxy,R->xy', ph.data, np.exp(1j * ph.R.dot(off)))
        if ph.lr:
            f, v = long_range(ph, off)
            want = np.einsum('g,gi,gj->ij', f, v.conj(), v) + ph.D0_lr
            D = D + want
        close(ph.D(*off) * mm, D * mm, 'interpolated dynamical matrix %s'
            % state, tol=5e-5 * unit)
        G = np.einsum('ixjab,i,j->xab', g.data, np.exp(1j * g.Rg.dot(off)),
            np.exp(1j * g.Rk.dot(off)))
        if ph.lr:
            f, v = long_range(ph, off, perp=False)
            G = G + np.einsum('g,gi->i', f, v)[:, None, None] * np.eye(el.size)
        close(g.g(*off, *off) * m[:, None, None], G * m[:, None, None],
            'interpolated coupling %s' % state, tol=5e-5 * ug)
        ctx.outcome((lat, nat, nq, ops, ph.data * 1e3, g.data * 1e3))

MOVES = dict(
    order=lambda ph: ph.order_atoms(*range(ph.nat)[::-1]),
    cycle=lambda ph: ph.order_atoms(*range(1, ph.nat), 0),
    first=lambda ph: ph.shift_atoms(slice(1), (1, 0, 0)),
    last=lambda ph: ph.shift_atoms(slice(ph.nat - 1, None), (0, -1, 2)),
    tidy=lambda ph: ph.standardize(),
    sample=lambda ph: ph.sample_orig(),
    update=lambda ph: ph.update_short_range(),
    Z=lambda ph: (setattr(ph, 'Z', ph.Z * 1.3 + 0.1),
        ph.update_short_range()),
    lr=lambda ph: (setattr(ph, 'lr', not ph.lr), ph.update_short_range()),
    )

@check.family
def moved(ctx, lat, nat, nq, divide_mass, polar_, ops):
    """Original mesh follows reordering of atoms."""

    ph = gen.ph_model(elphmod, nat=nat, nmax=[(n - 1) // 2 for n in nq], nq=nq,
        lat=lat, divide_mass=divide_mass, polar=True, Q=lat == 'tri')
    ph.lr = polar_
    ph.sample_orig()
    Z = list(ph.Z.copy())
    Q = None if ph.Q is None else list(ph.Q.copy())
    qs = [2 * np.pi * np.array(q) / nq for q in
        itertools.product(*map(range, nq))]
    D0 = np.array([ph.D(*q) for q in qs]).reshape((len(qs), nat, 3, nat, 3))
    M, r, names = list(ph.M), [np.array(x) for x in ph.r], list(ph.atom_order)
    m = np.sqrt(masses(ph)) if divide_mass else np.ones(ph.size)
    unit = max(abs(D0).max(), abs(ph.D_lr(0.8, 0.3).max()) if ph.lr else 0)
    unit *= max(M)

    for op in ops:
        MOVES[op](ph)
        ctx.states += 1
        ctx.transitions += 1
        if op == 'order' or op == 'cycle':
            o = list(range(nat)[::-1] if op == 'order'
                else [*range(1, nat), 0])
            D0 = D0[:, o][:, :, :, o]
            M, r, names, Z = ([x[i] for i in o] for x in (M, r, names, Z))
            if Q is not None:
                Q = [Q[i] for i in o]
        elif op == 'Z':
            Z = [1.3 * z + 0.1 for z in Z]
        elif op == 'first' or op == 'last':
            n, S = (0, (1, 0, 0)) if op == 'first' else (nat - 1, (0, -1, 2))
            r[n] = r[n] + S @ ph.a
            for i, q in enumerate(qs):
                # displacement of distant image
                w = np.exp(1j * (q @ S))
                D0[i, n] *= w
                D0[i, :, :, n] /= w
        state = 'after %s' % ', '.join(ops)
        close(ph.M, M, 'masses %s' % state)
        close(ph.r, r, 'positions %s' % state)
        equal(list(ph.atom_order), names, 'atoms %s' % state)
        close(ph.Z, Z, 'effective charges %s' % state)
        if Q is not None:
            close(ph.Q, Q, 'quadrupoles %s' % state)
        for q, D in zip(qs, D0):
            close(ph.D(*q).reshape(D.shape), D, 'dynamical matrix %s' % state,
                tol=5e-5 * unit / max(m) ** 2)
    ctx.outcome((lat, nat, nq, divide_mass, polar_, ops))

@check.family
def updated_asr(ctx, lat, nat, nq, divide_mass, polar_, changed):
    """Acoustic sum rule upon update: only self force constants change."""

    ph = gen.ph_model(elphmod, nat=nat, nmax=[(n - 1) // 2 for n in nq], nq=nq,
        lat=lat, divide_mass=divide_mass, polar=True)
    ph.lr = polar_
    ph.sample_orig()
    if changed:
        ph.Z = 0.7 * ph.Z
    ph.update_short_range(flfrc='plain.ifc')
    qs = [2 * np.pi * np.array(q) / nq for q in
        itertools.product(*map(range, nq))] + [np.array([0.8, 0.3, -0.4])]
    m = np.sqrt(masses(ph)) if divide_mass else np.ones(ph.size)
    m = np.outer(m, m)
    before = [ph.D(*q) * m for q in qs]
    short = np.einsum('Rxy->xy', ph.data) * m

    ph.update_short_range(flfrc='asr.ifc', apply_asr_simple=True)
    after = [ph.D(*q) * m for q in qs]
    want = np.zeros((ph.size, ph.size))
    for n in range(nat):
        i = slice(3 * n, 3 * n + 3)
        want[i, i] = -sum(short[i, 3 * k:3 * k + 3] for k in range(nat)).real
    unit = max(abs(D).max() for D in before)
    for D0, D in zip(before, after):
        close(D - D0, want, 'correction of dynamical matrix', tol=1e-6 * unit)
    # correction is not saved:
    for name, ref_ in ('plain.ifc', before), ('asr.ifc', before):
        n = elphmod.ph.Model(name, divide_mass=divide_mass, lr=polar_,
            lr2d=False)
        for q, D in zip(qs, ref_):
            close(n.D(*q) * m, D, 'dynamical matrix from file',
                tol=1e-5 * unit)
    ctx.outcome((lat, nat, nq, divide_mass, polar_, changed, ph.data * 1e3))

@check.family
def masses_agree(ctx, ph_mass, elph_mass, polar_):
    """Common convention for masses if there are long-range terms."""

    el = gen.el_model(elphmod)
    ph0 = gen.ph_model(elphmod, divide_mass=True, polar=polar_)
    g0 = gen.elph_model(elphmod, el, ph0)
    g0.to_epmatwp('plain')
    ph = gen.ph_model(elphmod, divide_mass=ph_mass, polar=polar_)
    g = elphmod.elph.Model('plain.epmatwp', 'plain.wigner', el, ph,
        divide_mass=elph_mass)
    want = ph_mass if polar_ else elph_mass
    m = np.sqrt(masses(ph))
    got = g.data * (1 if want else 1 / m[:, None, None, None])
    close(got * 1e3, g0.data * 1e3, 'coupling', tol=1e-9)
    # writing it again does not change anything:
    g.to_epmatwp('again')
    h = elphmod.elph.Model('again.epmatwp', 'again.wigner', el, ph0,
        divide_mass=True)
    close(h.data * 1e3, g0.data * 1e3, 'coupling written again', tol=1e-9)
    g.asr()
    m = m if want else np.ones(len(m))
    total = (g.data * m[:, None, None, None]).reshape((len(g.Rg), ph.nat, 3,
        len(g.Rk), el.size, el.size)).sum(axis=(0, 1))
    close(total, np.zeros(total.shape), 'acoustic sum', tol=1e-9)
    ctx.outcome((ph_mass, elph_mass, polar_))

@check.family
def spread(ctx, lat, nat, nmax, nq, divide_mass, gaps):
    """Size of short-range parameters as function of distance."""

    ph = gen.ph_model(elphmod, nat=nat, nmax=nmax, nq=nq, lat=lat,
        divide_mass=divide_mass)
    if gaps:
        ph.data[np.arange(len(ph.R)) % 3 == 1] = 0.0
        ph.data[:, 0] *= -1
    m = [M if divide_mass else 1.0 for M in ph.M]

    total = 0.0
    want = []
    for i, R in enumerate(ph.R):
        for k, l in itertools.product(range(nat), repeat=2):
            block = ph.data[i, 3 * k:3 * k + 3, 3 * l:3 * l + 3]
            size = sum(abs(x) for x in block.ravel())
            if k != l or any(R):
                total += size * math.sqrt(m[k] * m[l])
            if size:
                bond = R @ ph.a + ph.r[l] - ph.r[k]
                want.append((math.sqrt(sum(x * x for x in bond)),
                    math.sqrt(sum(x * x for x in block.ravel()))))
    close(ph.sum_force_constants(), total / (2 * math.prod(nq)),
        'sum of force constants')
    close(sorted(zip(*ph.decay())), sorted(want), 'decay of force constants')
    ctx.outcome((lat, nat, nmax, nq, divide_mass, gaps, total), len(ph.R) > 1)

@check.family
def spread_coupling(ctx, size, nat, ng, nk, divide_mass, gaps):
    ph = gen.ph_model(elphmod, nat=nat, divide_mass=divide_mass)
    el = gen.el_model(elphmod, size=size)
    g = gen.elph_model(elphmod, el, ph, ng=ng, nk=nk, divide_mass=divide_mass)
    if gaps:
        g.data[len(g.Rg) // 2] = 0.0
        g.data[:, :, len(g.Rk) - 1] = 0.0
    for name, R, axis in ('epmate', g.Rk, 2), ('epmatp', g.Rg, 0):
        want = []
        for i, r in enumerate(R):
            top = max(abs(x) for x in np.moveaxis(g.data, axis, 0)[i].ravel())
            if top:
                t = r @ ph.a
                want.append((math.sqrt(sum(x * x for x in t))
                    * elphmod.misc.a0, top))
        close(sorted(zip(*getattr(g, 'decay_' + name)())), sorted(want),
            'decay of coupling')
    ctx.outcome((size, nat, ng, nk, divide_mass, gaps, g.data),
        len(g.Rg) * len(g.Rk) > 1)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'

    for lat in 'cub', 'hex', 'tri', 'lef':
        for nat, nmax, nq in itertools.product((1, 2, 3), ((0, 0, 0),
                (1, 0, 0), (1, 1, 0), (1, 0, 2)), ((1, 1, 1), (3, 2, 1),
                (2, 2, 3))):
            for divide_mass, gaps in itertools.product((False, True),
                    repeat=2):
                yield 'spread', dict(lat=lat, nat=nat, nmax=nmax, nq=nq,
                    divide_mass=divide_mass, gaps=gaps)
    for size, nat in itertools.product((1, 2), repeat=2):
        for ng, nk in itertools.product(((0, 0, 0), (1, 0, 0), (1, 0, 1)),
                repeat=2):
            for divide_mass, gaps in itertools.product((False, True),
                    repeat=2):
                yield 'spread_coupling', dict(size=size, nat=nat, ng=ng, nk=nk,
                    divide_mass=divide_mass, gaps=gaps)

    for lat in 'cub', 'hex', 'tri', 'lef':
        for nat in 1, 2, 3:
            for nmax in (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 1), (1, 1, 1):
                if nat == 3 and math.prod(2 * n + 1 for n in nmax) > 9:
                    continue
                for divide_mass in False, True:
                    for asr, rsr in itertools.product((False, True), repeat=2):
                        if lat == 'lef' and not (asr and rsr):
                            continue
                        yield 'correction', dict(lat=lat, nat=nat, nmax=nmax,
                            divide_mass=divide_mass, asr=asr, rsr=rsr)
    for nat in 1, 2, 3:
        for nq in itertools.product((1, 2, 3), repeat=3):
            yield 'simple', dict(nat=nat, nq=nq)
        for form in 'function', 'mass', 'no mass':
            yield 'charges', dict(nat=nat, form=form)
        for nq in (1, 1, 1), (2, 1, 1), (3, 2, 1), (1, 2, 2):
            for lat in 'ort', 'hex':
                for divide_mass, polar_ in itertools.product((False, True),
                        repeat=2):
                    for which in 'asr', 'asr_simple':
                        yield 'from_file', dict(lat=lat, nat=nat, nq=nq,
                            divide_mass=divide_mass, which=which, polar=polar_)
    for size, nat in itertools.product((1, 2), (1, 2, 3)):
        for ng, nk in itertools.product([(0, 0, 0), (1, 0, 0), (0, 1, 1)],
                repeat=2):
            for divide_mass in False, True:
                for unit in 1.0, 1e-6:
                    yield 'coupling', dict(size=size, nat=nat, ng=ng, nk=nk,
                        divide_mass=divide_mass, unit=unit)

    for lat in 'cub', 'ort', 'hex', 'obl', 'tri':
        for nat in 1, 2, 3:
            for kind in '3d', '2d', 'L':
                for Q, divide_mass in itertools.product((False, True),
                        repeat=2):
                    for perp in (False, True) if kind == 'L' else (True,):
                        if lat == ('obl' if kind == '3d' else 'tri'):
                            continue
                        yield 'lattice_sum', dict(lat=lat, nat=nat, kind=kind,
                            Q=Q, divide_mass=divide_mass, perp=perp)

    for n in 1, 2, 3, 4:
        for ops in itertools.product(MOVES, repeat=n):
            if n > 2 and ops[-1] not in ('update', 'Z', 'lr'):
                continue
            if n == 4 and not (thorough and 'sample' not in ops):
                continue
            j = sum(len(op) for op in ops) + sum(map(ord, ops[0]))
            for lat, nat, nq in (('tri', 2, (1, 3, 2)), ('hex', 3, (2, 2, 1))):
                if n > 2 and not thorough and (lat == 'hex') != (j % 4 == 1):
                    continue
                yield 'moved', dict(lat=lat, nat=nat, nq=nq,
                    divide_mass=j % 2 == 0, polar_=j % 3 > 0, ops=ops)

    for lat, nat, nq in (('cub', 1, (2, 2, 1)), ('tri', 2, (1, 3, 2)),
            ('hex', 3, (2, 2, 1)), ('ort', 2, (3, 3, 1))):
        for divide_mass, polar_, changed in itertools.product((False, True),
                repeat=3):
            yield 'updated_asr', dict(lat=lat, nat=nat, nq=nq,
                divide_mass=divide_mass, polar_=polar_, changed=changed)

    depth = 3 if thorough else 2
    for ops in itertools.chain(*[itertools.product(OPS, repeat=n)
            for n in range(1, depth + 1)]):
        n = sum(len(op) for op in ops)
        yield 'history', dict(lat='hex', nat=2, nq=(2, 2, 1), nk=(1, 2, 1),
            divide_mass=n % 2 == 0, polar_='lr' not in ops, lr2d=n % 3 == 0,
            Q=n % 5 > 2, ops=ops)
    for lat, nat, nq, nk in (('cub', 1, (3, 1, 1), (2, 1, 1)),
            ('ort', 2, (1, 2, 2), (1, 1, 1)), ('hex', 1, (3, 3, 1), (2, 2, 1))):
        for divide_mass, polar_, lr2d, Q in itertools.product((False, True),
                repeat=4):
            if lr2d and nq[2] > 1:
                continue
            yield 'history', dict(lat=lat, nat=nat, nq=nq, nk=nk,
                divide_mass=divide_mass, polar_=polar_, lr2d=lr2d, Q=Q,
                ops=('Z', 'lr', 'Q', 'alpha', 'lr'))
    for x in itertools.product((False, True), repeat=3):
        yield 'masses_agree', dict(zip(('ph_mass', 'elph_mass', 'polar_'), x))

check.main()
