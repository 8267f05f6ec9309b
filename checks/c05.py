"""C05: rearranging tight-binding and mass-spring models."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import numpy as np

import elphmod.el, elphmod.ph, elphmod.misc
from mc import gen, ref, reshape
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C05', 'model_checking',
    rule='all histories of rearrangements up to the given depth on generic '
    'models; states are told apart by a hash of lattice vectors, matrix '
    'elements, and cells; trivial: no operation', timeout=400)

SC = [('supercell',) + gen.SUPERCELLS[n] for n in ('x2', 'r3', 'neg', 'gen',
    'sh', 'inv')]

OPS = [
    ('order', 'rev'),
    ('order', 'rot'),
    ('shift', 'first', (1, 0, 0)),
    ('shift', 'last', (0, -1, 2)),
    ('shift', 'some', (1, -1, 0)),
    ('shift', 'all', (0, 1, 0)),
    ('standardize',),
    ('symmetrize',),
    ('unit_cell',),
    ] + SC

def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x

@check.family
def electrons(ctx, model, first, depth):
    def build():
        el = gen.el_model(elphmod, **model['args'])
        if model.get('repeat'):
            # lattice vectors may occur repeatedly
            n = len(el.R)
            el.R = np.concatenate((el.R, el.R[:n // 2 + 1]))
            el.data = np.concatenate((el.data, el.data[:n // 2 + 1] * 0.3j))
        return el, reshape.El(el)

    reshape.explore(ctx, build, OPS, depth, reshape.apply_el,
        reshape.inspect_el, first=tup(first))
    ctx.traces += ctx.transitions

@check.family
def phonons(ctx, model, first, depth):
    def build():
        ph = gen.ph_model(elphmod, **model['args'])
        if model.get('repeat'):
            n = len(ph.R)
            ph.R = np.concatenate((ph.R, ph.R[:n // 2 + 1]))
            ph.data = np.concatenate((ph.data, ph.data[:n // 2 + 1] * 0.3))
        return ph, reshape.Ph(ph)

    ops = [op for op in OPS if not model.get('planar')
        or op[0] != 'supercell' or op[3] == 1]
    if model.get('planar'):
        ops = [op for op in ops if op[0] != 'shift' or not op[2][2]]

    reshape.explore(ctx, build, ops, depth, reshape.apply_ph,
        reshape.inspect_ph, first=tup(first))
    ctx.traces += ctx.transitions

def folded_spectrum(ctx, what, N, seed):
    pass

@check.family
def sparse(ctx, N, seed, polar, real):
    """Sparse supercells equal dense ones at zero wave vector."""

    N = tup(N)
    el = gen.el_model(elphmod, seed=seed, nmax=(1, 1, 1))
    if real:
        el.data = el.data.real + 0j
    ph = gen.ph_model(elphmod, seed=seed, polar=polar)

    M = ref.matrixN(N)
    dense = el.supercell(*N)
    s = el.supercell(*N, sparse=True)
    equal(s.Hs.shape, (dense.size,) * 2, 'shape of sparse Hamiltonian')
    equal([tuple(map(int, c)) for c in s.cells],
        [tuple(map(int, c)) for c in dense.cells], 'cells')
    close(s.Hs.toarray(), ref.fold(lambda k: ref.fourier(el.R, el.data.real,
        k), M, dense.cells).real, 'sparse Hamiltonian')
    if real:
        close(s.Hs.toarray(), dense.H(), 'sparse versus dense Hamiltonian')

    dense = ph.supercell(*N)
    s = ph.supercell(*N, sparse=True)
    equal(s.Ds.shape, (dense.size,) * 2, 'shape of sparse dynamical matrix')
    D = dense.D()
    scale = abs(D).max()
    close(s.Ds.toarray() / scale, D.real / scale,
        'sparse versus dense dynamical matrix')
    ctx.outcome(s.Ds.toarray() / scale)

@check.family
def thresholds(ctx, kind, eps, seed):
    """Standardization removes exactly the small matrix elements."""

    m = gen.el_model(elphmod, seed=seed) if kind == 'el' \
        else gen.ph_model(elphmod, seed=seed, nat=1)
    d = np.array(m.data)
    d[abs(d) < eps * abs(d).max()] = 0.0
    want = ref.summed(m.R, d)
    m.standardize(eps=eps)
    reshape.is_standard(m.R)
    reshape.same(ref.summed(m.R, m.data), want, 'standardized model')
    equal(len(m.R), len(want), 'number of nonzero matrices')
    ctx.outcome([m.R, m.data])

@check.family
def emptied(ctx, kind, history):
    """Models without matrix elements stay usable."""

    m = gen.el_model(elphmod) if kind == 'el' else gen.ph_model(elphmod)
    size = m.size
    f = (lambda m: m.H(0.1, 0.2, 0.3)) if kind == 'el' \
        else lambda m: m.D(0.1, 0.2, 0.3)
    if history[0] == 'zero':
        m.data = m.data * 0.0
    else:
        m.clear()
    for op in history[1:]:
        if op == 'standardize':
            m.standardize()
        elif op == 'eps':
            m.standardize(eps=1e-10)
        elif op == 'symmetrize':
            m.symmetrize()
        elif op == 'supercell':
            m = m.supercell(2, 1, 1)
            size *= 2
        elif op == 'unit_cell':
            m = m.unit_cell()
            size //= 2
        equal(np.shape(m.R)[1:], (3,), 'shape of lattice vectors')
        close(f(m), np.zeros((size, size)), 'Fourier transform of nothing')
    ctx.outcome(history)

EL = [
    dict(args=dict(size=2, nmax=[1, 1, 0], seed=1)),
    dict(args=dict(size=3, nmax=[1, 0, 1], seed=2, hermitian=False,
        rydberg=False)),
    dict(args=dict(size=2, nmax=[1, 0, 0], seed=3, hermitian=False),
        repeat=True),
    ]

PH = [
    dict(args=dict(nat=2, nmax=[1, 1, 0], seed=1, lat='tri')),
    dict(args=dict(nat=1, nmax=[1, 0, 1], seed=2, lat='fcc',
        divide_mass=False)),
    dict(args=dict(nat=2, nmax=[1, 0, 0], seed=3, lat='lef'), repeat=True),
    dict(args=dict(nat=2, nmax=[0, 1, 0], seed=4, lat='tri', polar=True,
        alph=0.3)),
    dict(args=dict(nat=2, nmax=[0, 1, 0], seed=5, lat='hex', polar=True,
        Q=True, lr2d=True, L=4.0, alph=0.3), planar=True),
    dict(args=dict(nat=2, nmax=[1, 0, 0], seed=6, lat='obl', polar=True,
        lr2d=True, L=5.0, perp=False, integer=True), planar=True),
    ]

@check.cases
def enumerate_cases(tier):
    depth = 2 if tier == 'quick' else 3

    for i, model in enumerate(EL):
        for op in OPS:
            if op != ('unit_cell',):
                yield 'electrons', dict(model=model, first=op,
                    depth=3 if tier == 'quick' else 4)

    for model in PH:
        d = depth + (not model['args'].get('polar'))
        for op in OPS:
            if op == ('unit_cell',) or op == ('symmetrize',) \
                    and model['args'].get('polar'):
                continue
            if model.get('planar') and (op[0] == 'supercell' and op[3] != 1
                    or op[0] == 'shift' and op[2][2]):
                continue
            yield 'phonons', dict(model=model, first=op, depth=d)

    for N in gen.SUPERCELLS.values():
        for seed in (1, 2) if tier == 'quick' else range(1, 9):
            for polar in False, True:
                for real in False, True:
                    yield 'sparse', dict(N=N, seed=seed, polar=polar,
                        real=real)

    for kind in 'el', 'ph':
        for eps in (0.0, 1e-10, 0.05, 0.3, 0.7):
            for seed in range(1, 7 if tier == 'quick' else 40):
                yield 'thresholds', dict(kind=kind, eps=eps, seed=seed)

        for start in 'zero', 'clear':
            for a in ('standardize', 'eps', 'symmetrize', 'supercell'):
                yield 'emptied', dict(kind=kind, history=[start, a])
                for b in ('standardize', 'eps', 'symmetrize', 'supercell',
                        'unit_cell'):
                    if b == 'unit_cell' and a != 'supercell':
                        continue
                    yield 'emptied', dict(kind=kind, history=[start, a, b])

check.main()
