"""C07: evaluation and sampling of the electron-phonon coupling."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools
import numpy as np

import elphmod.bravais, elphmod.dispersion
import elphmod.el, elphmod.ph, elphmod.elph, elphmod.misc
from mc import gen, ref, reshape
from mc.common import Check, Violation, require, close, equal, digest

elphmod.misc.verbosity = 0

check = Check('C07', 'model_checking',
    rule='all histories of evaluations and modifications up to the given '
    'depth, where every evaluation is compared with a direct Fourier sum; all '
    'combinations of the options of the sampling routines on small meshes; '
    'trivial: no modification before the last evaluation', timeout=300)

POINTS = dict(
    a=((0.61, -0.27, 0.19), (0.2, 0.3, 0.4)),
    b=((0.61, -0.27, 0.19), (-1.2, 0.3, 0.9)),
    c=((0.0, 0.0, 0.0), (0.2, 0.3, 0.4)),
    d=((0.61, -0.27, -0.19), (0.2, 0.3, 0.4)),
    )

def direct(model, q, k):
    """Coupling from public attributes."""
    fq = np.exp(1j * (np.array(model.Rg) @ np.array(q)))
    fk = np.exp(1j * (np.array(model.Rk) @ np.array(k)))
    g = np.einsum('RxSab,R,S->xab', np.array(model.data), fq, fk)
    if model.ph.lr:
        factor, vector = model.ph.generate_long_range(*q, perp=False)
        lr = (factor[:, None] * vector).sum(axis=0)
        g = g + lr[:, None, None] * np.eye(model.el.size)
    return g

def evaluate(model, point, form):
    q, k = POINTS[point]
    want = direct(model, q, k)
    scale = 1e-3 # of coupling used here

    if form == 'plain':
        got = model.g(*q, *k)
    elif form == 'serial':
        got = model.g(*q, *k, comm=elphmod.MPI.I)
    elif form == 'root':
        got = model.g(*q, *k, broadcast=False)
    elif form == 'bands':
        # gauge-invariant comparison
        Uk = np.linalg.eigh(model.el.H(*k))[1]
        Ukq = np.linalg.eigh(model.el.H(*np.add(k, q)))[1]
        u = np.linalg.eigh(model.ph.D(*q))[1]
        want = abs(np.einsum('xab,am,bn,xu->umn', want, Ukq.conj(), Uk, u))
        got = abs(model.g(*q, *k, elbnd=True, phbnd=True))
    elif form == 'elbnd':
        Uk = np.linalg.eigh(model.el.H(*k))[1]
        Ukq = np.linalg.eigh(model.el.H(*np.add(k, q)))[1]
        want = abs(np.einsum('xab,am,bn->xmn', want, Ukq.conj(), Uk))
        got = abs(model.g(*q, *k, elbnd=True))
    elif form == 'phbnd':
        u = np.linalg.eigh(model.ph.D(*q))[1]
        want = abs(np.einsum('xab,xu->uab', want, u))
        got = abs(model.g(*q, *k, phbnd=True))

    close(got / scale, want / scale, 'coupling at %s (%s)' % (point, form),
        tol=1e-9)
    return got

OPS = [('g', p, 'plain') for p in POINTS] + [
    ('g', 'a', 'serial'), ('g', 'a', 'root'), ('g', 'b', 'bands'),
    ('g', 'a', 'elbnd'), ('g', 'd', 'phbnd'),
    ('asr',), ('standardize',), ('standardize', 0.2), ('symmetrize',),
    ('q2r', 1), ('q2r', 2), ('mesh',), ('short',), ('charges',), ('clear',),
    ('supercell',), ('other',), ('scale',),
    ]

def build(polar, seed):
    nq, nk = (2, 1, 1), (2, 1, 1)
    el = gen.el_model(elphmod, size=2, nmax=(1, 0, 1), nk=nk, seed=seed)
    ph = gen.ph_model(elphmod, nat=1 if not polar else 2, nmax=(1, 0, 0),
        nq=nq, seed=seed, polar=polar, **(dict(alph=0.2) if polar else {}))
    elph = elphmod.elph.Model(el=el, ph=ph)
    elph.r_el = gen.positions(ph.a, 2, 'orbitals')
    g = gen.cplx((2, ph.size, 2, 1, 1, 2, 2), 'coupling', seed) * 1e-3
    elphmod.elph.q2r(elph, nq, nk, g, elph.r_el)
    return elph

@check.family
def histories(ctx, polar, seed, first, depth):
    seen = set()

    for rest in itertools.product(range(len(OPS)), repeat=depth - len(first)):
        history = [OPS[i] for i in first] + [OPS[i] for i in rest]

        # evaluate last
        if history[-1][0] != 'g':
            continue
        names = [op[0] for op in history]
        if names.count('supercell') > 1 or polar and 'supercell' in names:
            continue

        model = build(polar, seed)
        done = []

        standard = False

        for op in history:
            done.append(op)
            name = op[0]
            if name == 'g':
                got = evaluate(model, *op[1:])
            elif name == 'asr':
                model.asr(report=False)
            elif name == 'standardize':
                model.standardize(*op[1:])
                standard = True
            elif name == 'symmetrize':
                model.symmetrize()
                standard = True
            elif name == 'clear':
                model.clear()
                standard = True
                if model.ph.lr:
                    break
            elif name == 'supercell':
                model = model.supercell(2, 1, 1)
                standard = True
            elif name in ('q2r', 'mesh', 'short', 'charges') and (standard
                    or len(model.cells) > 1):
                # not defined without Wigner-Seitz information
                break
            elif name == 'q2r':
                g = gen.cplx((2, model.ph.size, 2, 1, 1, 2, 2), 'new',
                    op[1]) * 1e-3
                elphmod.elph.q2r(model, (2, 1, 1), (2, 1, 1), g)
                if not model.ph.lr:
                    for iq in range(2):
                        for ik in range(2):
                            close(direct(model, (np.pi * iq, 0, 0),
                                (np.pi * ik, 0, 0)) * 1e3,
                                g[iq, :, ik, 0, 0] * 1e3, 'new coupling')
            elif name == 'mesh':
                # other meshes, other lattice vectors
                g = gen.cplx((3, model.ph.size, 1, 2, 1, 2, 2),
                    'mesh') * 1e-3
                elphmod.elph.q2r(model, (1, 3, 1), (1, 2, 1), g, model.r_el)
                standard = True # meshes do not match attributes anymore
            elif name == 'short':
                model.sample_orig()
                model.update_short_range()
            elif name == 'charges':
                # changed charges only redistribute contributions on mesh
                model.sample_orig()
                before = np.array(model.g0)
                if model.ph.lr:
                    model.ph.Z = model.ph.Z * 1.5
                model.update_short_range()
                for iq in range(2):
                    for ik in range(2):
                        close(direct(model, (np.pi * iq, 0, 0),
                            (np.pi * ik, 0, 0)) * 1e3, before[iq, :, ik,
                            0, 0] * 1e3, 'coupling on original mesh',
                            tol=1e-7)
            elif name == 'other':
                # another model must not interfere
                other = build(polar, seed + 1)
                evaluate(other, 'a', 'plain')
            elif name == 'scale':
                # sampling uses the same cache
                q = [POINTS['a'][0]]
                got = elphmod.elph.sample(model.g, q, (2, 1, 1))
        else:
            key = digest([np.array(model.data) * 1e4, got * 1e3])
            ctx.outcome(key, nontrivial=len(set(names)) > 1)
            ctx.states += key not in seen
            seen.add(key)
            ctx.traces += 1
        ctx.transitions += len(done)

def brute(g, q, nk, U, u, squared):
    """Sample coupling point by point."""

    nk3 = tuple(nk) + (1,) * (3 - len(nk))
    nel = g(0, 0, 0, 0, 0, 0).shape[1]
    result = []
    for iq, Q in enumerate(q):
        Q3 = list(Q) + [0.0] * (3 - len(Q))
        shift = [int(round(x * n / (2 * np.pi))) for x, n in zip(Q3, nk3)]
        block = []
        for n in itertools.product(*map(range, nk3)):
            k = [2 * np.pi * i / d for i, d in zip(n, nk3)]
            G = g(*Q3, *k)
            m = [(i + s) % d for i, s, d in zip(n, shift, nk3)]
            if U is not None:
                V = U.reshape((*nk3, *U.shape[-2:]))
                G = np.einsum('xab,am,bn->xmn', G, V[tuple(m)].conj(),
                    V[tuple(n)])
            if u is not None:
                G = np.einsum('xab,xu->uab', G, u[iq])
            if squared:
                G = abs(G) ** 2
            block.append(G)
        block = np.moveaxis(np.array(block), 0, 1)
        result.append(block.reshape((block.shape[0], *nk,
            *block.shape[2:])))
    return np.array(result)

def qpoints(which, dim, nk):
    full = list(itertools.product(*[[2 * np.pi * i / n for i in range(n)]
        for n in nk]))
    if which == 'full':
        return full
    if which == 'one':
        return full[-1:]
    if which == 'some':
        return full[1::2] + full[:1]
    if which == 'shifted':
        # equivalent points outside of the first zone
        return [[x - 2 * np.pi * (i % 2) for i, x in enumerate(p)]
            for p in full[-3:]]

@check.family
def sampling(ctx, which, nk, form, U, u, squared, shared, kind):
    el = gen.el_model(elphmod, size=2, nmax=(1, 1, 1), seed=3)
    ph = gen.ph_model(elphmod, nat=1, nmax=(1, 0, 0), seed=3)
    elph = gen.elph_model(elphmod, el, ph, ng=(1, 1, 0), nk=(0, 1, 1),
        seed=3, scale=50.0)

    q = qpoints(which, len(nk), nk)

    def reference(q1, q2, q3, k1, k2, k3):
        return direct(elph, (q1, q2, q3), (k1, k2, k3))

    Us = us = None

    if U:
        Us = gen.cplx((*nk, 2, U), 'U', nk)
    if u:
        us = gen.cplx((len(q), ph.size, u), 'u', nk)

    copies = [np.array(x) for x in (q, ) + ((Us,) if U else ())
        + ((us,) if u else ())]

    want = brute(reference, q, nk, Us, us, squared)
    options = dict(U=Us, u=us, squared=squared, shared_memory=shared)

    if form == 'int':
        arg = nk[0]
    elif form == 'none':
        arg = None
    elif form == 'array':
        arg = np.array(nk)
    else:
        arg = tuple(nk)

    if kind == 'method':
        got = elph.sample(q, arg, **options)
    elif kind == 'array':
        got = elph.sample(np.array(q), arg, **options)
    elif kind == 'function':
        memory = {}

        def g(q1=0, q2=0, q3=0, k1=0, k2=0, k3=0, **ignore):
            key = q1, q2, q3, k1, k2, k3
            if key not in memory:
                memory[key] = direct(elph, key[:3], key[3:])
            return memory[key]

        got = elphmod.elph.sample(g, q, arg, **options)

        for key in memory:
            close(memory[key], direct(elph, key[:3], key[3:]),
                'matrix owned by function', tol=0, rel=1e-13)
        got = elphmod.elph.sample(g, q, arg, **options)
    elif kind == 'transform':
        bare = elph.sample(q, nk)
        bare0 = bare.copy()
        got = elphmod.elph.transform(bare, q, nk[0], **options)
        close(bare, bare0, 'untransformed coupling', tol=0, rel=0)

    equal(got.dtype.kind, 'f' if squared else 'c', 'type')
    close(got, want, 'sampled coupling')

    for x, y in zip(copies, (q, ) + ((Us,) if U else ())
            + ((us,) if u else ())):
        close(np.array(y), x, 'argument', tol=0, rel=0)

    ctx.outcome(got, nontrivial=got.size > 12)

@check.cases
def enumerate_cases(tier):
    for polar in False, True:
        for seed in (1,):
            depth = 3 if tier == 'quick' else 4
            for first in itertools.product(range(len(OPS)),
                    repeat=depth - 1):
                yield 'histories', dict(polar=polar, seed=seed,
                    first=list(first), depth=depth)

    for nk in ([3], [2, 2], [2, 3], [3, 2, 2], [1, 4]):
        for which in 'full', 'one', 'some', 'shifted':
            for U in 0, 1, 2:
                for u in 0, 1, 3:
                    for squared in False, True:
                        for form in 'tuple', 'int', 'none', 'array':
                            if form == 'int' and len(set(nk)) > 1:
                                continue
                            if form == 'none' and not U:
                                continue
                            for kind in ('method', 'array', 'function',
                                    'transform'):
                                if kind == 'transform' and (len(nk) != 2
                                        or nk[0] != nk[1]):
                                    continue
                                if kind == 'array' and form != 'tuple':
                                    continue
                                yield 'sampling', dict(which=which, nk=nk,
                                    form=form, U=U, u=u, squared=squared,
                                    shared=len(nk) % 2 == 0, kind=kind)

check.main()
