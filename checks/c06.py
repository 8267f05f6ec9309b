"""C06: rearranging electron-phonon coupling and Coulomb interaction."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import numpy as np

import elphmod.el, elphmod.ph, elphmod.elph, elphmod.elel, elphmod.misc
from mc import gen, ref, reshape
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C06', 'model_checking',
    rule='all histories of rearrangements up to the given depth on generic '
    'models; states are told apart by a hash of lattice vectors and matrix '
    'elements; trivial: no operation', timeout=400)

def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x

def SC(*names):
    return [('supercell',) + gen.SUPERCELLS[n] for n in names]

OPS = [
    ('standardize',),
    ('symmetrize',),
    ('evaluate', 0.61, -0.27, 0.19, 0.2, 0.3, 0.4),
    ('asr',),
    ] + SC('x2', 'y3', 'neg', 'sh', 'inv')

@check.family
def couplings(ctx, model, first, depth):
    def build():
        args = dict(model)
        eargs = args.pop('el', {})
        pargs = args.pop('ph', {})
        seed = args.get('seed', 0)
        repeat = args.pop('repeat', False)
        el = gen.el_model(elphmod, **{'seed': seed, 'nmax': (1, 0, 0),
            **eargs})
        ph = gen.ph_model(elphmod, **{'seed': seed, 'nmax': (0, 1, 0),
            'divide_mass': args.get('divide_mass', True), **pargs})
        elph = gen.elph_model(elphmod, el, ph, **args)
        if repeat:
            Rg = np.concatenate((elph.Rg, elph.Rg[:1]))
            Rk = np.concatenate((elph.Rk, elph.Rk[-1:]))
            data = np.array(elph.data)
            data = np.concatenate((data, data[:1] * 0.3j))
            data = np.concatenate((data, data[:, :, -1:] * 0.7), axis=2)
            elph = elphmod.elph.Model(el=el, ph=ph, Rk=Rk, Rg=Rg,
                dk=np.ones((1, 1, len(Rk)), dtype=int),
                dg=np.ones((1, 1, 1, len(Rg)), dtype=int),
                divide_mass=elph.divide_mass)
            gen.fill(elphmod, elph, data)
        return elph, reshape.ElPh(elph)

    reshape.explore(ctx, build, OPS, depth, reshape.apply_elph,
        reshape.inspect_elph, first=tup(first))
    ctx.traces += ctx.transitions

@check.family
def interactions(ctx, model, first, depth):
    def build():
        args = dict(model)
        repeat = args.pop('repeat', False)
        elel = gen.elel_model(elphmod, **args)
        if repeat:
            elel.R = np.concatenate((elel.R, elel.R[:2]))
            elel.data = np.concatenate((elel.data, elel.data[:2] * 0.3j))
        return elel, reshape.ElEl(elel)

    ops = [('standardize',)] + SC('x2', 'r3', 'neg', 'gen', 'sh', 'inv', 'xy')

    reshape.explore(ctx, build, ops, depth, reshape.apply_elel,
        reshape.inspect_elel, first=tup(first))
    ctx.traces += ctx.transitions

@check.family
def sparse(ctx, N, seed, polar, real):
    """Sparse supercells equal dense ones at zero wave vectors."""

    N = tup(N)
    el = gen.el_model(elphmod, seed=seed, nmax=(1, 0, 0))
    ph = gen.ph_model(elphmod, seed=seed, nmax=(0, 1, 0), polar=polar)
    elph = gen.elph_model(elphmod, el, ph, seed=seed, ng=(1, 1, 0),
        nk=(0, 1, 0))

    if real:
        elph.data[...] = elph.data.real

    dense = elph.supercell(*N)
    s = elph.supercell(*N, sparse=True)

    equal([tuple(map(int, c)) for c in s.cells],
        [tuple(map(int, c)) for c in dense.cells], 'cells')
    equal(len(s.gs), dense.ph.size, 'number of sparse matrices')

    g = dense.g()
    scale = abs(g).max()
    G = np.array([np.asarray(s.gs[x].todense())
        for x in range(dense.ph.size)])
    close(G / scale, g.real / scale, 'sparse versus dense coupling')
    close(s.el.Hs.toarray(), dense.el.H().real, 'sparse Hamiltonian')
    D = dense.ph.D().real
    close(s.ph.Ds.toarray() / abs(D).max(), D / abs(D).max(),
        'sparse dynamical matrix')
    ctx.outcome(G / scale)

@check.family
def thresholds(ctx, kind, eps, seed):
    """Standardization removes exactly the small matrix elements."""

    if kind == 'elel':
        m = gen.elel_model(elphmod, seed=seed)
        d = np.array(m.data)
        d[abs(d) < eps * abs(d).max()] = 0.0
        want = ref.summed(m.R, d)
        m.standardize(eps=eps)
        reshape.is_standard(m.R)
        reshape.same(ref.summed(m.R, m.data), want, 'standardized model')
        ctx.outcome([m.R, m.data])
        return

    m = gen.elph_model(elphmod, seed=seed, divide_mass=False,
        ph=gen.ph_model(elphmod, seed=seed, nat=1))
    d = np.array(m.data)
    d[abs(d) < eps * abs(d).max()] = 0.0
    want = {}
    for g, Rg in enumerate(m.Rg):
        for k, Rk in enumerate(m.Rk):
            if np.any(d[g, :, k]):
                want[tuple(map(int, (*Rg, *Rk)))] = d[g, :, k]
    m.standardize(eps=eps)
    reshape.is_standard(m.Rg)
    reshape.is_standard(m.Rk)
    got = {}
    for g, Rg in enumerate(m.Rg):
        for k, Rk in enumerate(m.Rk):
            if np.any(m.data[g, :, k]):
                got[tuple(map(int, (*Rg, *Rk)))] = m.data[g, :, k]
    reshape.same(got, want, 'standardized coupling')
    equal([tuple(map(int, r)) for r in m.Rg],
        sorted({r[:3] for r in want} | {(0, 0, 0)}), 'phononic vectors')
    equal([tuple(map(int, r)) for r in m.Rk],
        sorted({r[3:] for r in want} | {(0, 0, 0)}), 'electronic vectors')
    ctx.outcome([m.Rg, m.Rk, m.data])

@check.family
def emptied(ctx, history):
    """Models without matrix elements stay usable."""

    m = gen.elph_model(elphmod)
    nel, nph = m.el.size, m.ph.size
    m.clear()
    for op in history:
        if op == 'standardize':
            m.standardize()
        elif op == 'eps':
            m.standardize(eps=1e-10)
        elif op == 'symmetrize':
            m.symmetrize()
        elif op == 'supercell':
            m = m.supercell(2, 1, 1)
            nel *= 2
            nph *= 2
        close(m.g(0.1, 0.2, 0.3, 0.4), np.zeros((nph, nel, nel)),
            'Fourier transform of nothing')
        close(m.el.H(0.1), np.zeros((nel, nel)), 'no Hamiltonian')
        close(m.ph.D(0.1), np.zeros((nph, nph)), 'no dynamical matrix')
    ctx.outcome(history)

MODELS = [
    dict(seed=1),
    dict(seed=2, ng=[0, 0, 0], nk=[1, 0, 0], divide_mass=False,
        ph=dict(nat=2, lat='lef')),
    dict(seed=3, ng=[1, 0, 1], nk=[0, 0, 0], el=dict(size=1),
        ph=dict(nat=1)),
    dict(seed=4, repeat=True, el=dict(size=2), ph=dict(nat=1)),
    dict(seed=5, ng=[0, 1, 0], nk=[0, 1, 0], hermitian=True,
        el=dict(size=1), ph=dict(nat=3)),
    dict(seed=6, ph=dict(nat=2, polar=True)),
    dict(seed=7, divide_mass=False, nk=[0, 0, 0], el=dict(size=1),
        ph=dict(nat=2, polar=True, Q=True, lat='cub')),
    ]

@check.cases
def enumerate_cases(tier):
    depth = 2 if tier == 'quick' else 3

    for model in MODELS:
        for op in OPS:
            yield 'couplings', dict(model=model, first=op, depth=depth + 1
                if model.get('ph', {}).get('nat') == 1 else depth)

    for model in dict(seed=1), dict(seed=2, size=3, nmax=[1, 0, 1]), \
            dict(seed=3, size=1, nmax=[1, 1, 1]), dict(seed=4, repeat=True):
        for op in [('standardize',)] + SC('x2', 'r3', 'neg', 'gen', 'sh',
                'inv', 'xy'):
            yield 'interactions', dict(model=model, first=op, depth=depth)

    for name, N in gen.SUPERCELLS.items():
        for seed in (1, 2) if tier == 'quick' else range(1, 9):
            for polar in False, True:
                for real in False, True:
                    yield 'sparse', dict(N=N, seed=seed, polar=polar,
                        real=real)

    for kind in 'elph', 'elel':
        for eps in (0.0, 1e-10, 0.3, 0.8, 0.97, 0.999):
            for seed in range(1, 7 if tier == 'quick' else 40):
                yield 'thresholds', dict(kind=kind, eps=eps, seed=seed)

    ops = ('standardize', 'eps', 'symmetrize', 'supercell')
    for a in ops:
        for b in ops:
            yield 'emptied', dict(history=[a, b])

check.main()
