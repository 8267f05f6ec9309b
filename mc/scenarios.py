"""Bodies executed by all ranks of a (simulated or real) MPI run.

Each scenario is a function `f(e, rank, path, **options)` that calls the real
code via the package `e` of this rank and returns what the caller may rely on:
`None` where no result is promised on this rank.  `path(name)` yields names of
files in a directory shared by all ranks, empty at the beginning of each run.

Results are normalized such that orders without meaning (of lattice vectors,
triangles, line segments) are irrelevant.
"""

import itertools

import numpy as np

from mc import gen

SCENARIOS = {}

def scenario(**options):
    """Register scenario with all (or given) combinations of options."""

    def decorate(f):
        names = sorted(options)
        f.options = [dict(zip(names, values)) for values in
            itertools.product(*[options[name] for name in names])]
        SCENARIOS[f.__name__] = f
        return f

    return decorate

def sortR(R, *data):
    """Sort by lattice vectors."""
    R = np.array(R)
    order = np.lexsort(R.T[::-1])
    return [R[order]] + [np.array(d)[order] for d in data]

def lattice_model(m):
    """Order-independent representation of real-space model."""
    return sortR(m.R, m.data)

def coupling_model(m):
    R, data = sortR(m.Rg, m.data)
    S, data = sortR(m.Rk, np.swapaxes(data, 0, 2))
    return [R, S, data]

def phases(V):
    """Gauge-invariant representation of eigenvectors."""
    return np.einsum('...am,...bm->...mab', V, V.conj())

KPTS = [(0.0, 0.0, 0.0), (0.1, -0.7, 2.3), (3.1, 0.2, -1.1), (1.7, 1.9, 0.4),
    (-2.2, 0.9, 5.1), (0.6, 4.2, 1.3), (2.5, -2.6, 0.8)]

def el(e, size=2, **kw):
    return gen.el_model(e, size=size, nmax=(1, 1, 0), nk=(2, 2, 1), seed=3,
        scale=1.0, **kw)

def single(e):
    """One-band model."""
    return gen.el_model(e, size=1, nmax=(1, 1, 0), nk=(2, 2, 1), seed=4,
        scale=1.0)

def mesh_energies(n, bands, *seed):
    return gen.real((n, n, bands), 'e', *seed) * 0.3

# elphmod.dispersion:

@scenario(n=[1, 2, 3, 5, 7], vectors=[False, True], broadcast=[False, True],
    shared_memory=[False, True], order=[False, True])
def dispersion(e, rank, path, n, vectors, broadcast, shared_memory, order):
    out = e.dispersion.dispersion(el(e).H, KPTS[:n], vectors=vectors,
        broadcast=broadcast, shared_memory=shared_memory, order=order)
    if not broadcast and rank:
        return None
    out = list(out) if isinstance(out, tuple) else [out]
    if vectors:
        out[1] = phases(out[1])
    return [np.array(x) for x in out]

@scenario(n=[3], kind=['one', 'general', 'general-vectors', 'mesh', 'gauge',
    'rotate', 'one-vectors'])
def dispersion_more(e, rank, path, n, kind):
    k = KPTS[:n]
    if kind.startswith('one'):
        out = e.dispersion.dispersion(single(e).H, k,
            vectors=kind == 'one-vectors')
    elif kind.startswith('general'):
        m = el(e, hermitian=False)
        out = e.dispersion.dispersion(m.H, k, hermitian=False,
            vectors=kind == 'general-vectors')
        if kind == 'general-vectors':
            return [out[0], phases(out[1])]
    elif kind == 'mesh':
        k = np.array(KPTS[:6]).reshape((2, 3, 3)) if rank == 0 else None
        out = e.dispersion.dispersion(el(e).H, k, shared_memory=True)
    elif kind == 'gauge':
        out = e.dispersion.dispersion(el(e).H, k, vectors=True, gauge=True)
    elif kind == 'rotate':
        D = gen.ph_model(e, nat=1, nmax=(1, 1, 0), lat='hex').D
        out = e.dispersion.dispersion(D, [q[:2] for q in k], vectors=True,
            rotate=True)
        return [out[0], phases(out[1])]
    return [np.array(x) for x in (out if isinstance(out, tuple) else [out])]

@scenario(size=[2, 3, 4], angle=[60, 90, 120], vectors=[False, True],
    order=[False, True], broadcast=[False, True], shared_memory=[False, True])
def dispersion_full(e, rank, path, size, angle, vectors, order, broadcast,
        shared_memory):
    def H(k1=0, k2=0, k3=0):
        if angle == 60:
            c = np.cos(k1) + np.cos(k2) + np.cos(k1 + k2)
        elif angle == 120:
            c = np.cos(k1) + np.cos(k2) + np.cos(k1 - k2)
        else:
            c = np.cos(k1) + np.cos(k2)
        return np.array([[c, 0.3], [0.3, -0.5 * c + 0.1]])
    out = e.dispersion.dispersion_full(H, size, angle=angle, vectors=vectors,
        order=order, broadcast=broadcast, shared_memory=shared_memory)
    if not broadcast and rank:
        return None
    out = list(out) if isinstance(out, tuple) else [out]
    if vectors:
        out[1] = phases(out[1])
    return [np.array(x) for x in out]

@scenario(size=[2, 3, (2, 3)], vectors=[False, True], order=[False, True],
    memory=['', 'shared', 'single'])
def dispersion_full_nosym(e, rank, path, size, vectors, order, memory):
    if order == isinstance(size, tuple) or size == 3 and not vectors:
        return 'undefined'

    def crossing(k1=0, k2=0, k3=0):
        c = np.cos(k1) + np.cos(k2) + np.cos(k1 + k2)
        return np.diag([c, 0.7, 0.2 - 0.4 * c]).astype(complex)

    out = e.dispersion.dispersion_full_nosym(crossing if order else el(e).H,
        size, vectors=vectors, order=order, broadcast=memory != 'single',
        shared_memory=memory == 'shared')
    if memory == 'single' and rank:
        return None
    out = list(out) if isinstance(out, tuple) else [out]
    if vectors:
        out[1] = phases(out[1])
    return [np.array(x) for x in out]

@scenario(n=[1, 2, 3, 5, 7], which=['H', 'v', 'D', 'W'])
def sample(e, rank, path, n, which):
    if which in 'Hv':
        f = getattr(el(e), which)
    elif which == 'D':
        f = gen.ph_model(e, nat=1, nmax=(1, 0, 0)).D
    else:
        f = gen.elel_model(e).W
    return e.dispersion.sample(f, KPTS[:n])

@scenario(n=[1, 2, 3, 5])
def unfolding(e, rank, path, n):
    k = np.array(KPTS[:n])
    R = [(0, 0, 0), (1, 0, 0)]
    U0 = np.linalg.qr(gen.cplx((n, 2, 2), 'U0'))[0]
    U = np.linalg.qr(gen.cplx((n, 4, 4), 'U'))[0]
    return e.dispersion.unfolding_weights(k, R, U0, U)

# elphmod.MPI:

@scenario(size=[0, 1, 2, 3, 5, 8], chunks=[None, 1, 3])
def distribute(e, rank, path, size, chunks):
    comm = e.MPI.comm
    sizes, bounds = e.MPI.distribute(size, bounds=True, chunks=chunks)
    assert len(sizes) == (chunks or comm.size)
    assert sizes.sum() == size and sizes.max() - sizes.min() <= 1
    assert list(bounds) == [0] + list(np.cumsum(sizes))
    assert list(e.MPI.distribute(size, chunks=chunks)) == list(sizes)
    return 'ok'

@scenario(size=[1, 2, 3, 5])
def matrix(e, rank, path, size):
    comm = e.MPI.comm
    col, row = e.MPI.matrix(size)
    # each work item belongs to exactly one column
    items = comm.allgather((row.rank, col.rank, row.size, col.size))
    assert row.size == min(size, comm.size) or row.size <= size
    mine = [other for other in items if other[0] == row.rank]
    assert len(set(other[1] for other in mine)) >= 1
    firsts = [other[0] for other in items if other[1] == 0]
    assert sorted(firsts) == list(range(len(firsts)))
    return 'ok'

@scenario(shape=[(), (3,), (2, 3)], dtype=['float', 'complex', 'int'],
    kind=['shared', 'plain', 'single', 'class'])
def shared_array(e, rank, path, shape, dtype, kind):
    comm = e.MPI.comm
    value = gen.real(shape, 'shared') * 1000
    if kind == 'class':
        array = e.MPI.SharedArray(shape, dtype=dtype)
        assert comm.rank or not array.node.rank and not array.images.rank
        for n in range(2):
            if comm.rank == 0:
                array[...] = value + n
            array.Bcast()
            out = np.array(array)
            comm.Barrier()
        return out
    node, images, array = e.MPI.shared_array(shape, dtype=dtype,
        shared_memory=kind == 'shared', single_memory=kind == 'single')
    assert (comm.rank == 0) == (node.rank == 0 and images.rank == 0)
    if comm.rank == 0:
        array[...] = value
    if node.rank == 0:
        images.Bcast(array)
    comm.Barrier()
    if kind == 'single' and rank:
        return None
    return np.array(array)

@scenario(txt=[False, True], shared_memory=[False, True],
    missing=[False, True])
def load(e, rank, path, txt, shared_memory, missing):
    if rank == 0 and not missing:
        if txt:
            np.savetxt(path('data'), gen.real((3, 2), 'load'))
        else:
            np.save(path('data.npy'), gen.cplx((3, 2), 'load'))
    e.MPI.comm.Barrier()
    out = e.MPI.load(path('data' if txt else 'data.npy'),
        shared_memory=shared_memory, txt=txt)
    return np.array(out)

@scenario(name=['buf', None])
def buffer(e, rank, path, name):
    buf = e.MPI.Buffer(name and path(name))
    before = buf.get()
    obj = dict(x=gen.real((2,), 'buf'), y=[1, 'a'])
    e.MPI.comm.Barrier()
    buf.set(obj)
    after = buf.get()
    return [repr(before), repr(after)]

# elphmod.elph:

def coupled(e, shared_memory=False, polar=False, ng=(1, 0, 0), nk=(1, 0, 0)):
    m = gen.el_model(e, size=2, nmax=(1, 0, 0), nk=(2, 1, 1), seed=5)
    ph = gen.ph_model(e, nat=2 if polar else 1, nmax=(1, 0, 0), nq=(2, 1, 1),
        seed=5, polar=polar, **(dict(alph=0.3) if polar else {}))
    elph = gen.elph_model(e, m, ph, ng=ng, nk=nk, seed=5, scale=1.0,
        shared_memory=shared_memory)
    elph.r_el = gen.positions(ph.a, 2, 'r')
    return elph

@scenario(shared_memory=[False, True], polar=[False, True],
    broadcast=[False, True])
def elph_g(e, rank, path, shared_memory, polar, broadcast):
    elph = coupled(e, shared_memory, polar)
    out = []
    for q, k in [(0, 1), (0, 2), (3, 2), (0, 0), (1, 1)]:
        g = elph.g(*KPTS[q], *KPTS[k], broadcast=broadcast)
        if broadcast or not rank:
            out.append(np.array(g))
    return out if broadcast or not rank else None

@scenario(n=[1, 2, 3, 5], nk=[(2,), (2, 2)], squared=[False, True],
    broadcast=[False, True], shared_memory=[False, True],
    basis=['', 'U', 'Uu'])
def elph_sample(e, rank, path, n, nk, squared, broadcast, shared_memory,
        basis):
    elph = coupled(e)
    dim = len(nk)
    q = [[2 * np.pi * (i % 2) / 2, 2 * np.pi * (i // 2) / 2][:dim]
        for i in range(n)]
    U = np.linalg.qr(gen.cplx((*nk, 2, 2), 'U'))[0] if 'U' in basis else None
    u = np.linalg.qr(gen.cplx((n, 3, 3), 'u'))[0] if 'u' in basis else None
    g = elph.sample(q, nk, U=U, u=u, squared=squared, broadcast=broadcast,
        shared_memory=shared_memory)
    if not broadcast and rank:
        return None
    return np.array(g)

@scenario(n=[1, 2, 3, 5], squared=[False, True], broadcast=[False, True],
    shared_memory=[False, True])
def elph_transform(e, rank, path, n, squared, broadcast, shared_memory):
    g = gen.cplx((n, 3, 2, 2, 2, 2), 'g')
    q = [[np.pi * (i % 2), np.pi * (i // 2 % 2)] for i in range(n)]
    U = np.linalg.qr(gen.cplx((2, 2, 2, 2), 'U'))[0]
    u = np.linalg.qr(gen.cplx((n, 3, 3), 'u'))[0]
    g = e.elph.transform(g, q, 2, U=U, u=u, squared=squared,
        broadcast=broadcast, shared_memory=shared_memory)
    if not broadcast and rank:
        return None
    return np.array(g)

@scenario(shared_memory=[False, True], new=[False, True],
    polar=[False, True])
def elph_q2r(e, rank, path, shared_memory, new, polar):
    elph = coupled(e, shared_memory, polar)
    size = elph.ph.size
    if new:
        g = gen.cplx((2, size, 2, 1, 1, 2, 2), 'g')
        e.elph.q2r(elph, (2,), (2,), g, elph.r_el,
            shared_memory=shared_memory)
    else:
        g = gen.cplx((3, size, 3, 1, 1, 2, 2), 'g')
        e.elph.q2r(elph, (3,), (3,), g, elph.r_el)
        g = gen.cplx((3, size, 3, 1, 1, 2, 2), 'h')
        e.elph.q2r(elph, (3,), (3,), g, divide_mass=False)
    return coupling_model(elph) + [elph.g(*KPTS[1], *KPTS[2])]

@scenario(shared_memory=[False, True], polar=[False, True], which=['q', 'Z'])
def elph_short_range(e, rank, path, shared_memory, polar, which):
    elph = coupled(e, shared_memory, polar)
    e.elph.q2r(elph, (2,), (2,), gen.cplx((2, elph.ph.size, 2, 1, 1, 2, 2),
        'g'), elph.r_el, shared_memory=shared_memory)
    elph.sample_orig(shared_memory=shared_memory)
    if polar and which == 'Z':
        elph.ph.Z = elph.ph.Z * 1.5
        elph.ph.update_short_range()
    elph.update_short_range(shared_memory=shared_memory)
    return coupling_model(elph) + [elph.g(*KPTS[1], *KPTS[2])]

@scenario(shared_memory=[False, True], sparse=[False, True],
    N=[(2, 1, 1), (1, 2, 1), ((1, 1, 0), (-1, 1, 0), 1)])
def elph_supercell(e, rank, path, shared_memory, sparse, N):
    elph = coupled(e, shared_memory)
    new = elph.supercell(*N, shared_memory=shared_memory, sparse=sparse)
    if sparse:
        return [np.array([g.toarray() for g in new.gs]), new.el.Hs.toarray(),
            new.ph.Ds.toarray()]
    return coupling_model(new) + lattice_model(new.el) + lattice_model(new.ph) \
        + [new.g(*KPTS[1], *KPTS[2])]

@scenario(shared_memory=[False, True],
    ops=['asr', 'standardize', 'standardize+', 'symmetrize', 'clear',
        'decay', 'asr standardize'])
def elph_modify(e, rank, path, shared_memory, ops):
    elph = coupled(e, shared_memory)
    elph.g(*KPTS[1], *KPTS[2])
    out = []
    for op in ops.split():
        if op == 'asr':
            elph.asr(report=False)
        elif op == 'standardize+':
            elph.standardize(eps=0.3)
        elif op == 'decay':
            for x in *elph.decay_epmate(), *elph.decay_epmatp():
                out.append(np.sort(np.ravel(x)))
        else:
            getattr(elph, op)()
    return out + coupling_model(elph) + [elph.g(*KPTS[1], *KPTS[2])]

@scenario(shared_memory=[False, True], dw=[False, True])
def elph_file(e, rank, path, shared_memory, dw):
    elph = coupled(e, shared_memory)
    e.elph.q2r(elph, (2,), (2,), gen.cplx((2, 3, 2, 1, 1, 2, 2), 'g'),
        elph.r_el, shared_memory=shared_memory)
    elph.to_epmatwp(path('test'))
    e.MPI.comm.Barrier()
    new = e.elph.Model(path('test.epmatwp'), path('test.wigner'), elph.el,
        elph.ph, divide_mass=dw, shared_memory=shared_memory)
    return coupling_model(new) + [new.g(*KPTS[1], *KPTS[2])]

@scenario(shared_memory=[False])
def elph_divide(e, rank, path, shared_memory):
    elph = coupled(e)
    e.elph.q2r(elph, (2,), (2,), gen.cplx((2, 3, 2, 1, 1, 2, 2), 'g'),
        elph.r_el)
    g = np.array(elph.data)
    elph.divide_degeneracy(g)
    return coupling_model(elph) + [sortR(elph.Rg, g)[1].sum()]

@scenario(n=[1, 2, 3, 5], completion=[False, True], phase=[False, True])
def elph_coupling(e, rank, path, n, completion, phase):
    if completion and phase:
        return 'undefined'
    if rank == 0:
        for iq in range(n):
            g = gen.real((2, 2, 2, 1, 1, 2), 'coupling', iq)
            with open(path('g%d' % (iq + 1)), 'w') as text:
                text.write('# header\n')
                for i in itertools.product(*map(range, g.shape[:-1])):
                    nu, k1, k2, n_, m = i
                    if completion and k1 > k2:
                        continue
                    cols = [k1 + 1, k2 + 1, m + 1, n_ + 1, nu + 1]
                    cols += list(g[i]) if phase else [g[i][0]]
                    text.write(' '.join(map(str, cols)) + '\n')
    e.MPI.comm.Barrier()
    return e.elph.coupling(path('g%d'), n, 2, 2, 1, completion=completion,
        phase=phase)

@scenario(n=[1, 2, 3, 5])
def elph_patterns(e, rank, path, n):
    if rank == 0:
        for iq in range(n):
            with open(path('p%d' % (iq + 1)), 'w') as text:
                text.write('<NUMBER_IRR_REP >\n3\n')
                for irep in range(3):
                    text.write('<DISPLACEMENT_PATTERN >\n')
                    for x in gen.real((3,), iq, irep):
                        text.write('%g, 0.0\n' % x)
    e.MPI.comm.Barrier()
    return e.elph.read_patterns(path('p%d'), n, 3, status=False)

@scenario(n=[1, 2, 3])
def elph_xml(e, rank, path, n):
    data = gen.cplx((n, 2, 2, 2, 2, 2), 'xml')
    e.elph.write_xml_files(path('x%d.%d'), data)
    if rank == 0:
        for iq in range(n):
            for irep in range(2):
                name = path('x%d.%d' % (iq + 1, irep + 1))
                with open(name) as text:
                    content = text.read()
    e.MPI.comm.Barrier()
    return e.elph.read_xml_files(path('x%d.%d'), n, 2, [0, 1], 2, 2,
        status=False, old=True)

@scenario(n=[1, 2, 5])
def elph_epw_output(e, rank, path, n):
    q = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)][:n]
    if rank == 0:
        with open(path('epw.out'), 'w') as text:
            for iq, (q1, q2) in enumerate(q):
                text.write('     iq = %d coord.: %g %g 0.0\n'
                    % (iq + 1, q1 / 3, q2 / 3))
                for ik, (k1, k2) in enumerate(itertools.product(range(2),
                        repeat=2)):
                    text.write('     ik = %d coord.: %g %g 0.0\n\n\n'
                        % (ik + 1, k1 / 2, k2 / 2))
                    for nu, x in enumerate(gen.real((3,), iq, ik)):
                        text.write('1 1 %d 0.1 0.2 %g %g\n'
                            % (nu + 1, 10 + nu, x))
            text.write('  L 1.25\n')
    e.MPI.comm.Barrier()
    return [e.elph.read_EPW_output(path('epw.out'), q, 3, 3, 2, eps=1e-3),
        *e.elph.read_prtgkk(path('epw.out'), n, 3, 4, 1),
        e.elph.read_L(path('epw.out'))]

# elphmod.el, elphmod.ph, elphmod.elel:

@scenario(kind=['hr', 'tb', 'wsvec', 'rydberg', 'xsf', 'xsf-buffer', 'k2r',
    'projwfc', 'bands', 'pwo', 'fermi', 'empty'])
def el_files(e, rank, path, kind):
    comm = e.MPI.comm
    m = el(e)
    if kind in ('hr', 'wsvec', 'rydberg', 'xsf', 'xsf-buffer'):
        m.to_hrdat(path('test'))
        if rank == 0 and kind == 'wsvec':
            with open(path('test_wsvec.dat'), 'w') as text:
                text.write('header\n')
                for R in m.R:
                    for a, b in itertools.product(range(2), repeat=2):
                        text.write('%d %d %d %d %d\n' % (*R, a + 1, b + 1))
                        vectors = [(0, 0, 0)]
                        if R[0] == 1 and a != b:
                            vectors.append((-2, 0, 0))
                        text.write('%d\n' % len(vectors))
                        for v in vectors:
                            text.write('%d %d %d\n' % v)
        options = dict()
        if kind.startswith('xsf'):
            X = ['A', 'B']
            tau = np.array([[0.0, 0.1, 0.2], [1.0, 0.5, 0.3]])
            for n in range(2):
                e.misc.write_xsf(path('test_%05d.xsf' % (n + 1)),
                    np.zeros(3), np.eye(3) * 2, X, tau,
                    gen.real((2, 3, 2), 'wf', n))
            options.update(read_xsf=True, normalize_wf=True,
                shared_memory=True, buffer_wf=kind == 'xsf-buffer')
        comm.Barrier()
        new = e.el.Model(path('test'), rydberg=kind == 'rydberg', **options)
        out = lattice_model(new) + [new.H(*KPTS[1]), list(new.nk)]
        if kind.startswith('xsf'):
            out += [np.array(new.W), np.array(new.r), new.dV]
        if kind == 'xsf-buffer':
            comm.Barrier()
            new = e.el.Model(path('test'), **options)
            out += [np.array(new.W), np.array(new.r), new.dV]
        return out
    if kind == 'tb':
        if rank == 0:
            with open(path('test_tb.dat'), 'w') as text:
                text.write('written on 1Jan2000\n1 0 0\n0 1 0\n0 0 1\n')
                text.write('2\n%d\n%s\n' % (len(m.R), ' 1' * len(m.R)))
                for R, H in zip(m.R, m.data):
                    text.write('\n%d %d %d\n' % tuple(R))
                    for a, b in itertools.product(range(2), repeat=2):
                        text.write('%d %d %r %r\n' % (a + 1, b + 1,
                            float(H[a, b].real), float(H[a, b].imag)))
        comm.Barrier()
        return lattice_model(e.el.Model(path('test')))
    if kind == 'k2r':
        H = gen.cplx((3, 2, 1, 2, 2), 'H')
        a = gen.lattice('tri')
        e.el.k2r(m, H, a, gen.positions(a, 2, 'k2r'))
        return lattice_model(m) + [m.H(*KPTS[1])]
    if kind == 'bands':
        k = gen.real((5, 3), 'k')
        e.el.write_bands(path('bands'), k, gen.real((3, 5), 'bands'))
        comm.Barrier()
        return list(e.el.read_bands(path('bands')))
    if kind == 'fermi':
        if rank == 0:
            with open(path('pw.out'), 'w') as text:
                text.write('x\n     the Fermi energy is    1.2345 ev\n')
        comm.Barrier()
        return e.el.read_Fermi_level(path('pw.out'))
    if kind == 'empty':
        m.data = m.data * 0
        m.standardize(eps=0.1)
        return [len(m.R), m.H(*KPTS[0])]
    return 'undefined'

@scenario(kind=['flfrc', 'asr', 'asr_simple', 'rsr', 'mass', 'q2r', 'q2r-irr',
    'lr', 'orig', 'spectral', 'order', 'standardize', 'supercell', 'sparse',
    'unit_cell'])
def ph_files(e, rank, path, kind):
    comm = e.MPI.comm
    m = gen.ph_model(e, nat=2, nmax=(1, 1, 0), nq=(2, 2, 1), lat='tri')
    probe = lambda m: lattice_model(m) + [m.D(*KPTS[1])]
    if kind in ('flfrc', 'asr', 'asr_simple', 'rsr', 'mass'):
        D = gen.cplx((2, 2, 1, 6, 6), 'D')
        D = D + D.swapaxes(-2, -1).conj()
        e.ph.q2r(m, D_full=D * 1e-6, nq=(2, 2, 1))
        m.to_flfrc(path('ifc'))
        comm.Barrier()
        new = e.ph.Model(path('ifc'), apply_asr=kind == 'asr',
            apply_asr_simple=kind == 'asr_simple', apply_rsr=kind == 'rsr',
            divide_mass=kind != 'mass')
        return probe(new)
    if kind == 'q2r':
        D = gen.cplx((2, 3, 1, 6, 6), 'D')
        e.ph.q2r(m, D_full=D, nq=(2, 3, 1), apply_asr=True,
            flfrc=path('ifc'))
        return probe(m)
    if kind == 'q2r-irr':
        m = gen.ph_model(e, nat=1, nmax=(1, 1, 0), nq=(2, 2, 1), lat='hex')
        m.r = m.r * 0
        m.ph = None
        q = [(0.0, 0.0), (0.0, np.pi)]
        D = np.array([np.diag([1.0, 1.0, 2.0]), np.diag([1.0, 3.0, 2.5])],
            dtype=complex)
        e.ph.q2r(m, D, q, 2)
        return probe(m)
    if kind in ('lr', 'orig'):
        m = gen.ph_model(e, nat=2, nmax=(1, 0, 0), nq=(2, 1, 1), polar=True,
            alph=0.3)
        e.ph.q2r(m, D_full=gen.cplx((2, 1, 1, 6, 6), 'D') * 1e-5, nq=(2, 1, 1))
        if kind == 'orig':
            m.sample_orig()
            m.Z = m.Z * 1.5
            m.update_short_range()
        return probe(m)
    if kind == 'spectral':
        D = gen.cplx((3, 3, 5), 'D')
        return e.ph.spectral_function(D, np.linspace(0.1, 1.0, 5), 0.1)
    if kind == 'order':
        m.order_atoms(1, 0)
        m.shift_atoms([0], (1, 0, 0))
        return probe(m)
    if kind == 'standardize':
        m.standardize(eps=1e-8, symmetrize=True)
        return probe(m)
    if kind == 'supercell':
        return probe(m.supercell(2, 1, 1))
    if kind == 'sparse':
        return m.supercell(2, 2, 1, sparse=True).Ds.toarray()
    if kind == 'unit_cell':
        return probe(m.supercell(2, 1, 1).unit_cell())

@scenario(kind=['supercell', 'standardize', 'unit_cell', 'sparse', 'wmat',
    'q2r', 'local', 'local-dd', 'orbital', 'orbital-dd', 'band', 'band-binary',
    'band-share', 'orbital2band', 'orbital2band-dd', 'orbital2band-share'])
def elel_el(e, rank, path, kind):
    comm = e.MPI.comm
    m = gen.elel_model(e)
    probe = lambda m: lattice_model(m) + [m.W(*KPTS[1])]
    if kind == 'supercell':
        return probe(m.supercell(2, 1, 1)) + lattice_model(
            el(e).supercell(2, 1, 1))
    if kind == 'standardize':
        m.standardize(eps=0.1)
        n = el(e)
        n.standardize(eps=0.1, symmetrize=True)
        return probe(m) + lattice_model(n)
    if kind == 'unit_cell':
        return lattice_model(el(e).supercell(2, 2, 1).unit_cell())
    if kind == 'sparse':
        return el(e).supercell(2, 2, 1, sparse=True).Hs.toarray()
    if kind == 'wmat':
        m.to_Wmat(path('dat.Wmat'))
        if rank:
            return None
        with open(path('dat.Wmat')) as text:
            return text.read()
    if kind == 'q2r':
        a = gen.lattice('tri')
        e.elel.q2r(m, gen.cplx((2, 3, 1, 2, 2), 'W'), a,
            gen.positions(a, 2, 'W'))
        return probe(m)
    if kind.startswith('local') or kind.startswith('orbital') \
            and '2' not in kind:
        dd = kind.endswith('dd')
        orbital = kind.startswith('orbital')
        if rank == 0:
            with open(path('U'), 'w') as text:
                text.write('header\n')
                for q in itertools.product(range(2), repeat=2) \
                        if orbital else [()]:
                    for i in itertools.product(range(1, 3), repeat=4):
                        x = gen.real((2,), q, i)
                        cols = [c / 2 for c in q] + [0.0] * (len(q) > 0)
                        text.write(' '.join(map(str, cols + list(i)
                            + list(x))) + '\n')
        comm.Barrier()
        if orbital:
            return e.elel.read_orbital_Coulomb_interaction(path('U'),
                (2, 2, 1), 2, dd=dd)
        return e.elel.read_local_Coulomb_tensor(path('U'), 2, dd=dd)
    if kind.startswith('band'):
        binary = kind == 'band-binary'
        e.elel.write_band_Coulomb_interaction(path('V'),
            gen.cplx((2, 2, 2, 2, 2), 'V'), binary=binary)
        share = kind == 'band-share'
        out = e.elel.read_band_Coulomb_interaction(path('V'), 2, 2,
            binary=binary, share=share)
        return np.array(out) if share or rank == 0 else None
    share = kind.endswith('share')
    out = e.elel.orbital2band(gen.cplx((2, 2, 2, 2, 2, 2), 'U'), el(e).H, 2, 2,
        dd=kind.endswith('dd'), share=share)
    return np.array(out) if share or rank == 0 else None

# elphmod.diagrams:

Q2 = [(0.0, 0.0), (np.pi, 0.0), (0.0, np.pi), (np.pi, np.pi), (0.0, -np.pi)]

@scenario(n=[1, 2, 3, 5], kind=['plain', 'g2', 'g', 'gG', 'omega', 'omegas',
    'fluctuations', 'Delta', 'Delta_diff', 'diagonal', 'U', 'serial'])
def phonon_self_energy(e, rank, path, n, kind):
    x = mesh_energies(2, 2)
    g = gen.cplx((n, 3, 2, 2, 2, 2), 'g')
    G = gen.cplx((n, 3, 2, 2, 2, 2), 'G')
    kw = dict(
        plain=dict(), g2=dict(g2=abs(g) ** 2), g=dict(g=g), gG=dict(g=g, G=G),
        omega=dict(g2=abs(g) ** 2, omega=0.1 + 0.01j),
        omegas=dict(g=g, omega=np.array([0.1 + 0.01j, 0.2 + 0.01j])),
        fluctuations=dict(g2=abs(g) ** 2, fluctuations=True),
        Delta=dict(g2=abs(g) ** 2, Delta=0.1),
        Delta_diff=dict(g2=abs(g) ** 2, Delta=0.1, Delta_diff=True),
        diagonal=dict(g=g, diagonal=True), U=dict(g=g,
            U=gen.real((2, 2), 'U')),
        serial=dict(g=g, comm=e.MPI.I))[kind]
    out = e.diagrams.phonon_self_energy(Q2[:n], x, kT=0.1, **kw)
    return list(out) if isinstance(out, tuple) else out

@scenario(n=[1, 2, 3, 5], kind=['dfs', 'dfs-g2', 'dfs-complex', 'pse2', 'band',
    'band-dd', 'orbital', 'orbital-dd', 'pi_g', 'fan', 'kubo', 'kubo-dc',
    'band-sub'])
def diagrams(e, rank, path, n, kind):
    x = mesh_energies(2, 2)
    q = Q2[:n]
    g = gen.cplx((n, 3, 2, 2, 2, 2), 'g')
    U = np.linalg.qr(gen.cplx((2, 2, 2, 2), 'U'))[0]
    d = e.diagrams
    if kind.startswith('dfs'):
        return list(d.double_fermi_surface_average(q, x, None if kind == 'dfs'
            else g if kind == 'dfs-complex' else abs(g) ** 2, kT=0.1))
    if kind == 'pse2':
        return d.phonon_self_energy2(np.array(q), x[:, :, 0],
            abs(g[..., 0, 0]) ** 2, kT=0.1, nmats=7)
    if kind == 'pi_g':
        return d.Pi_g(q, x, g, U, kT=0.1, status=False)
    if kind.startswith('band') or kind.startswith('orbital'):
        W = gen.cplx((n, 2, 2) if kind.endswith('dd') else (n, 2, 2, 2, 2),
            'W')
        if kind.startswith('band'):
            return d.renormalize_coupling_band(q, x, g, W, U, kT=0.1,
                status=False, nbnd_sub=1 if kind == 'band-sub' else None)
        return d.renormalize_coupling_orbital(q, x, g, W, U, kT=0.1,
            status=False)
    if kind == 'fan':
        return d.fan_migdal_self_energy(q, x,
            abs(gen.real((2, 2, 3), 'w')) * 0.1,
            abs(gen.real((2, 2, 3, n, 2, 2), 'g2')),
            np.array([0.0, 0.1, 0.2]) + 0.01j, kT=0.1)
    omega = np.linspace(-0.2, 0.2, 2 * n + 1)
    return d.green_kubo_conductivity(gen.real((2, 2, 2, 2), 'v'),
        abs(gen.real((2, 2, 2, len(omega)), 'A')), omega, kT=0.1,
        dc_only=kind == 'kubo-dc')

# elphmod.dos, elphmod.eliashberg:

def segments(contours):
    """Lines independent of direction and start."""
    out = set()
    for c in contours:
        pts = [tuple(np.round(p, 9) + 0.0) for p in c]
        for a, b in zip(pts, pts[1:]):
            out.add(tuple(sorted((a, b))))
    return np.array(sorted(out))

@scenario(N=[1, 2, 3], kind=['dos', 'dos-window', 'a2F', 'dd', 'dd-f',
    'isoline'])
def dos(e, rank, path, N, kind):
    x = gen.real((N, N), 'x')
    y = gen.real((N, N), 'y')
    E = np.array([-0.5, 0.05, 0.3])
    if kind == 'dos':
        return e.dos.hexDOS(x)(E)
    if kind == 'dos-window':
        return e.dos.hexDOS(x, minimum=0.0, maximum=0.2)(E[1:2])
    if kind == 'a2F':
        return e.dos.hexa2F(x, y)(E)
    if kind.startswith('dd'):
        f = gen.real((N, N), 'f') if kind == 'dd-f' else None
        out = []
        for z in E:
            dd = e.dos.double_delta(x, y, f)(z)
            out.append(sorted((*np.round(p, 9), w) for p, w in dd.items()))
        return [np.array(o) for o in out]
    if N == 1:
        return 'undefined'
    return [segments(e.dos.isoline(x)(z)) for z in E[1:]]

@scenario(tetra=[False, True], correct=[False, True])
def eliashberg(e, rank, path, tetra, correct):
    nq, nk = 2, 4
    k = 2 * np.pi / nk * np.arange(nk)
    x = (np.cos(k)[:, None] + np.cos(k) + np.cos(np.add.outer(k, k))
        )[..., None] * 0.3 + 0.05
    w2 = abs(gen.real((2, 3), 'w2')) * 1e-2
    g2 = abs(gen.real((2, 3, nk, nk, 1, 1), 'g2')) * 1e-3
    return [float(y) for y in e.eliashberg.McMillan(nq, x, w2, g2,
        tetra=tetra, kT=0.2, correct=correct)]

# elphmod.misc, elphmod.bravais:

@scenario(kind=['xsf', 'xsf-header', 'cube', 'cube-header', 'grid',
    'grid-shared', 'input', 'input-root', 'pwi', 'win', 'ph', 'q2r', 'matdyn',
    'epw', 'wigner_file'])
def files(e, rank, path, kind):
    comm = e.MPI.comm
    header = kind.endswith('header')
    if kind.startswith('xsf'):
        e.misc.write_xsf(path('x'), gen.real((3,), 'r0'), gen.real((3, 3),
            'a'), ['A', 'B'], gen.real((2, 3), 't'), gen.real((2, 3, 4), 'd'))
        comm.Barrier()
        return list(e.misc.read_xsf(path('x'), only_header=header))
    if kind.startswith('cube'):
        if rank == 0:
            with open(path('c'), 'w') as text:
                text.write('a\nb\n2 0.1 0.2 0.3\n2 0.5 0 0\n3 0 0.6 0\n'
                    '4 0 0 0.7\n1 0 0.1 0.2 0.3\n8 0 0.4 0.5 0.6\n')
                for x in gen.real((8, 3), 'cube'):
                    text.write('%g %g %g\n' % tuple(x))
        comm.Barrier()
        return list(e.misc.read_cube(path('c'), only_header=header))
    if kind.startswith('grid'):
        return np.array(e.misc.real_space_grid((2, 3, 2), gen.real((3,), 'r'),
            gen.real((3, 3), 'a'), shared_memory=kind == 'grid-shared'))
    if kind.startswith('input'):
        if rank == 0:
            with open(path('i'), 'w') as text:
                text.write("&a\n x = 1, y = 'b c'\n/\n&b z(2) = .true. /\n")
        comm.Barrier()
        out = e.misc.read_input_data(path('i'), broadcast=kind == 'input')
        if kind == 'input-root' and rank:
            return None
        return repr(sorted(out.items()))
    struct = dict(prefix='abc', nat=2, ntyp=2, at=['A', 'B'],
        at_species=['A', 'B'], mass=[1.0, 2.0],
        pp=['a.upf', 'b.upf'], coords='crystal', r=gen.real((2, 3), 'r'),
        ibrav=1, a=3.0, ktyp='automatic', k_points=[2, 2, 1, 0, 0, 0])
    if kind == 'pwi':
        e.bravais.write_pwi(path('f'), struct)
        comm.Barrier()
        out = e.bravais.read_pwi(path('f'))
        return repr(sorted((k, np.array(v).tolist()) for k, v in out.items()))
    if kind == 'matdyn':
        e.bravais.write_matdyn(path('f'), dict(flfrc='ifc', q=gen.real((3, 4),
            'q'), nq=3))
        comm.Barrier()
        out = e.bravais.read_matdyn(path('f'))
        return repr(sorted((k, np.array(v).tolist()) for k, v in out.items()))
    if kind in ('ph', 'q2r'):
        getattr(e.bravais, 'write_' + kind)(path('f'), dict(prefix='abc',
            fildyn='dyn', nq1=2))
        comm.Barrier()
        return repr(sorted(getattr(e.bravais, 'read_' + kind)(path('f'))
            .items()))
    return 'undefined'

@scenario(nr=[(2, 2, 1), (3, 1, 1), (2, 2, 2)], lat=['tri', 'hex', 'cub'],
    two=[False, True])
def wigner(e, rank, path, nr, lat, two):
    a = gen.lattice(lat)
    out = e.bravais.wigner(*nr, a, gen.positions(a, 2, 'w'),
        gen.positions(a, 3, 'v') if two else None)
    return sortR(*out)

@scenario(shape=[(1,), (2,), (3,), (2, 3), (1, 1)], polar=[False, True])
def resize(e, rank, path, shape, polar):
    data = gen.real((3, 3, 2)[:len(shape) + 1], 'resize')
    if polar:
        data = data.astype(complex) * (1 + 0.3j)
    return e.bravais.resize(data, shape, axes=tuple(range(len(shape))),
        polar=polar)

@scenario(N=[(2, 1, 1), (2, 2, 1), ((1, 1, 0), (-1, 2, 0), 1)])
def supercell(e, rank, path, N):
    out = e.bravais.supercell(*N)
    return [np.array(x) for x in out[1]] + [sorted(map(tuple, out[2]))] \
        if isinstance(out, tuple) and len(out) > 2 else repr(out)

# elphmod.plot:

class Colormap:
    """Stand-in for colormap from StoryLines."""

    def __init__(self, x):
        self.x = list(x)

    def __call__(self, x):
        self.value = np.interp(x, self.x, [10.0, 200.0, 30.0])
        return self

    def RGB(self):
        return self.value, self.value / 2, 255 - self.value

@scenario(kind=['plot', 'plot-k', 'double', 'double-outlines', 'toBZ',
    'toBZ-complex', 'toBZ-even', 'color', 'color-rgb'],
    broadcast=[False, True])
def plots(e, rank, path, kind, broadcast):
    data = gen.real((3, 3), 'p')
    p = e.plot
    if kind.startswith('plot'):
        out = p.plot(data, resolution=3, return_k=kind == 'plot-k',
            broadcast=broadcast)
    elif kind.startswith('double'):
        out = p.double_plot(gen.real((2, 3, 3), 'p'), [(0, 0), (0, np.pi)], 2,
            resolution=3, outlines=kind == 'double-outlines',
            broadcast=broadcast)
    elif kind == 'toBZ':
        out = p.toBZ(data, points=5, return_k=True, broadcast=broadcast)
    elif kind == 'toBZ-complex':
        out = p.toBZ(gen.cplx((2, 3, 3), 'p'), points=5, angle=60,
            broadcast=broadcast)
    elif kind == 'toBZ-even':
        out = p.toBZ(data, points=5, angle=90, even=True, outside=np.nan,
            broadcast=broadcast)
        out = np.nan_to_num(out, nan=1e3) if broadcast or not rank else None
    elif kind == 'color':
        return p.color(data, Colormap([0, 0.5, 1]))
    else:
        return p.color(data, Colormap([0, '0.1', 1]), minimum=-0.5)
    if not broadcast and rank:
        return None
    return list(out) if isinstance(out, tuple) else out

# elphmod.md:

def driver(e, nk=(2,), nq=(2,), f='fd', **kw):
    m = gen.el_model(e, size=2, nmax=(1, 0, 0), nk=(2, 1, 1), seed=6,
        scale=0.1)
    m.data = np.array(m.data)
    ph = gen.ph_model(e, nat=2, nmax=(1, 0, 0), nq=(2, 1, 1), seed=6,
        divide_mass=False)
    elph = gen.elph_model(e, m, ph, ng=(1, 0, 0), nk=(1, 0, 0), seed=6,
        scale=0.01, divide_mass=False)
    elph.data[...] = gen.hermitian_g(elph.Rg, elph.Rk, elph.data)
    e.MPI.comm.Barrier()
    return e.md.Driver(elph, kT=0.05, f=f, n=2.0, nk=nk, nq=nq, **kw)

@scenario(shared_memory=[False, True], unscreen=[False, True],
    steps=['e', 'f', 'h', 'H', 'hh', 's', 'ss', 'eh', 'hs', 'm', 'r'])
def md(e, rank, path, shared_memory, unscreen, steps):
    d = driver(e, shared_memory=shared_memory, unscreen=unscreen)
    u = gen.real((6,), 'u') * 0.1
    out = []
    for n, step in enumerate(steps):
        if step == 'e':
            out.append(d.free_energy(u, show=False))
        elif step == 'f':
            d.free_energy(u, show=False)
            out.append(d.jacobian(show=False))
        elif step in 'hH':
            out.append(d.hessian(gamma_only=step == 'h'))
            d.free_energy(u * (n + 1), show=False)
        elif step == 's':
            out.append([float(x) for x in d.superconductivity()])
        elif step == 'm':
            out += lattice_model(d.phonons()) + [d.density()]
        elif step == 'r':
            d.random_displacements()
            common = e.MPI.comm.bcast(d.u)
            assert np.array_equal(common, d.u)
            d.to_xyz(path('x.xyz'))
            d.u[:] = 0
            d.from_xyz(path('x.xyz'))
            assert np.allclose(common, d.u, atol=1e-8)
    return out

@scenario(which=['chain', 'graphene', 'tas2'])
def models(e, rank, path, which):
    import importlib
    module = getattr(__import__('sys').modules['elphmod.models.%s' % which],
        'create')
    el, ph, elph = module(path(which))[:3]
    e.MPI.comm.Barrier()
    out = [el.H(*KPTS[1]), ph.D(*KPTS[1]), elph.g(*KPTS[1], *KPTS[2])]
    with open(path(which + '_hr.dat')) as text:
        out.append(text.read().split('\n', 1)[1])
    with open(path(which + '.ifc')) as text:
        out.append(text.read())
    with open(path(which + '.epmatwp'), 'rb') as data:
        out.append(np.fromfile(data, dtype=complex))
    return out
