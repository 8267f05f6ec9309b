"""C28: refusal of requests whose requirements are not met."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import contextlib, io, itertools, shutil
import numpy as np

from mc import gen, scenarios, simmpi
from mc.common import Check, Violation, require, close, equal
from mc.monitor import Monitor

elphmod.misc.verbosity = 0

check = Check('C28', 'exploration',
    rule='all combinations of met and unmet requirements of each request, all '
    'numbers of processes up to 3 (thorough: 4), all orders of processes; '
    'oracle: independent predicate; trivial: none')

snap = Monitor.__new__(Monitor).snap

# Each request prepares something, which is watched, and returns the call.

def lattice(e, rank, path, ibrav, cell, units):
    kwargs = dict(ibrav=ibrav, a=5.0, b=6.0, c=7.0, cosbc=0.1, cosac=0.2,
        cosab=0.3)
    if cell:
        kwargs['r_cell'] = np.eye(3) * 5
    if units:
        kwargs['cell_units'] = 'angstrom'
    return kwargs, lambda: e.bravais.primitives(**kwargs)

IBRAV = {0, 1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12, -12, 13,
    -13, 14}

def lattice_valid(ibrav, cell, units):
    return ibrav in IBRAV and (ibrav != 0 or cell and units)

def conductivity(e, rank, path, n, offset, bend, eps, dc_only, split):
    """Frequencies shifted and bent in units of tolerance."""

    omega = np.arange(n) - float(n // 2)
    omega += offset * eps
    if n > 2:
        omega[-1] += bend * eps
    nk, bands = 2, 1
    v = gen.real((1, nk, bands, 2), 'v')
    A = abs(gen.real((1, nk, bands, n), 'A'))
    comm = e.MPI.comm
    if split:
        comm = comm.Split(rank == 0)
    watched = [omega, v, A]
    if split and rank:
        return watched, lambda: 'other'
    kwargs = dict(comm=comm) if split else {}
    return watched, lambda: e.diagrams.green_kubo_conductivity(v, A, omega,
        kT=0.5, eps=eps, dc_only=dc_only, **kwargs)

def conductivity_valid(n, offset, bend, eps, dc_only, split):
    return dc_only or abs(offset) < 1 and abs(bend) < 1

def memory(e, rank, path, nk, nmats, fraction):
    need = nmats * (2 * nk) ** 2 * 16 * e.MPI.comm.size / 1e9
    energies = gen.real((nk, nk), 'e')
    g2 = abs(gen.real((1, 1, nk, nk), 'g2'))
    q = np.array([[0.0, 2 * np.pi / nk]])
    return [energies, g2, q], lambda: e.diagrams.phonon_self_energy2(q,
        energies, g2, kT=0.1, nmats=nmats, GB=need / fraction)

def memory_valid(nk, nmats, fraction):
    return fraction < 1

def springs(e, rank, path, polar, sampled, change):
    ph = gen.ph_model(e, nat=2, nmax=(1, 0, 0), nq=(2, 1, 1), seed=5,
        polar=polar)
    if polar:
        ph.prepare_long_range()
    if sampled:
        ph.sample_orig()
    if change == 'Z' and polar:
        ph.Z = ph.Z * 0.5
        ph.prepare_long_range()
    elif change == 'off':
        ph.lr = False
    flfrc = path('flfrc') if change == 'file' else None
    def call():
        ph.update_short_range(flfrc)
        return ph.data
    return ph, call

def springs_valid(polar, sampled, change):
    return sampled

def coupling(e, rank, path, polar, sampled, points):
    elph = scenarios.coupled(e, False, polar)
    if points == 'none':
        elph.el.nk = None
    ph = elph.ph
    if polar:
        ph.prepare_long_range()
    if sampled == 'both' and points != 'none':
        elph.sample_orig()
    elif sampled == 'phonons':
        ph.sample_orig()
    elif sampled == 'now':
        def call():
            elph.sample_orig()
            return elph.g0
        return elph, call
    if polar:
        ph.Z = ph.Z * 0.5
        ph.prepare_long_range()
    def call():
        elph.update_short_range()
        return elph.data
    return elph, call

def coupling_valid(polar, sampled, points):
    return points != 'none' and sampled in ('both', 'now')

def division(e, rank, path, standardized):
    elph = scenarios.coupled(e)
    if standardized:
        elph.standardize()
    g = np.array(elph.data).reshape((len(elph.Rg), elph.ph.size, len(elph.Rk),
        elph.el.size, elph.el.size))
    def call():
        elph.divide_degeneracy(g)
        return g
    return [elph, g], call

def division_valid(standardized):
    return not standardized

def dynamics(e, rank, path, rydberg, ph_mass, elph_mass, sparse, nk, nq):
    m = gen.el_model(e, size=2, nmax=(1, 0, 0), nk=(2, 1, 1), seed=6,
        scale=0.1, rydberg=rydberg)
    ph = gen.ph_model(e, nat=2, nmax=(1, 0, 0), nq=(2, 1, 1), seed=6,
        divide_mass=ph_mass)
    elph = gen.elph_model(e, m, ph, ng=(1, 0, 0), nk=(1, 0, 0), seed=6,
        scale=0.01, divide_mass=ph_mass)
    elph.data[...] = gen.hermitian_g(elph.Rg, elph.Rk, elph.data)
    e.MPI.comm.Barrier()
    # inconsistent convention
    elph.divide_mass = elph_mass
    if sparse:
        elph = elph.supercell(2, 1, 1, sparse=True)
    def call():
        d = e.md.Driver(elph, kT=0.05, f='fd', n=2.0, nk=nk, nq=nq)
        return d.free_energy(show=False)
    return elph, call

def dynamics_valid(rydberg, ph_mass, elph_mass, sparse, nk, nq):
    return (rydberg and not ph_mass and not elph_mass
        and not (sparse and max(nk + nq) > 1))

def carriers(e, rank, path, n, nx, f):
    if f != 'fd':
        f = getattr(e.occupations, f)
    d = scenarios.driver(e, f=f)
    d.n, d.nx = n, nx
    def call():
        d.diagonalize()
        return [float(x) for x in np.ravel(d.mu)]
    return d.elph, call

def carriers_valid(n, nx, f):
    return f != 'two_fermi_dirac' or n % 2 == 0

def basis(e, rank, path, given):
    d = scenarios.driver(e)
    d.free_energy(show=False)
    d.basis = [[0], [1]] if given else None
    return d.elph, lambda: d.density_per_atom()

def basis_valid(given):
    return given

def preparation(e, rank, path, dyn, out, suffix):
    """Collection of files for EPW."""

    if rank == 0:
        os.makedirs(path('tmp/_ph0/x.phsave'))
        for name in 'control_ph', 'status_run', 'patterns.1':
            with open(path('tmp/_ph0/x.phsave/%s.xml' % name), 'w') as f:
                f.write('x')
        with open(path('tmp/_ph0/x.dvscf1'), 'w') as f:
            f.write('x')
        if dyn:
            with open(path('dyn1' + suffix), 'w') as f:
                f.write('x')
        os.mkdir(path('save'))
    e.MPI.comm.Barrier()
    folder = path('tmp' if out else 'other')
    def call():
        e.elph.ph2epw(path('dyn' + suffix), folder, path('save'))
        return sorted(os.listdir(path('save')))
    return [], call

def preparation_valid(dyn, out, suffix):
    return dyn and out

def entropy(e, rank, path, order, x):
    mp = e.occupations.methfessel_paxton
    def call():
        mp.order, before = order, mp.order
        try:
            return mp.entropy(np.float64(x))
        except NotImplementedError:
            raise SystemExit
        finally:
            mp.order = before
    return [], call

def entropy_valid(order, x):
    return order == 1

def orbit(k1, k2, nq, angle):
    """Equivalent points, only by right angles and inversion for squares."""

    points = {(k1 % nq, k2 % nq)}
    while True:
        new = set(points)
        for x, y in points:
            if angle == 90:
                images = (-x, y), (x, -y)
            elif angle == 60:
                images = (-y, x + y), (y, x)
            else:
                images = (x - y, x), (y, x)
            new |= {(x % nq, y % nq) for x, y in images}
        if new == points:
            return points
        points = new

def mesh(e, rank, path, nq, angle, points):
    """Dynamical matrices for some q points."""

    a = np.array([[5.0, 0.0, 0.0], [5 * np.cos(np.radians(180 - angle)),
        5 * np.sin(np.radians(180 - angle)), 0.0], [0.0, 0.0, 9.0]])
    ph = e.ph.Model(amass=[9e3], at=a, tau=np.zeros((1, 3)),
        atom_order=['Aa'])
    q = 2 * np.pi * np.array(points, dtype=float).reshape((-1, 2)) / nq
    D = np.array([np.diag([1.0, 1.0, 2.0]) * (1 + x) for x in range(len(q))],
        dtype=complex)
    def call():
        e.ph.q2r(ph, D, q, nq, angle=angle)
        return ph.data
    return [q, D] if rank else [ph, q, D], call

def mesh_valid(nq, angle, points):
    return len(set().union(*[orbit(*k, nq, angle) for k in points])) == nq ** 2

REQUESTS = dict(mesh=mesh, lattice=lattice, conductivity=conductivity, memory=memory,
    springs=springs, coupling=coupling, division=division, dynamics=dynamics,
    carriers=carriers, basis=basis, preparation=preparation, entropy=entropy)

def plain(x):
    return np.array(x) if isinstance(x, (np.ndarray, float, complex)) or (
        np.isscalar(x)) else x

@check.family
def request(ctx, name, options, size):
    """Request with met or unmet requirements on all processes."""

    valid = bool(globals()[name + '_valid'](**options))
    if name in ('lattice', 'coupling', 'dynamics', 'conductivity', 'mesh'):
        options = {k: tuple(v) if isinstance(v, list) else v
            for k, v in options.items()}
    results = []
    orders = [list(range(size)), list(range(size))[::-1]]
    for order in orders[:size]:
        folder = env.scratch('run')
        path = lambda x: os.path.join(folder, x)

        def body(e, rank):
            e.misc.verbosity = 0
            watched, call = REQUESTS[name](e, rank, path, **options)
            before = snap(watched)
            e.MPI.comm.Barrier()
            files = sorted(os.listdir(folder))
            e.MPI.comm.Barrier()
            try:
                out = 'done', plain(call()), None
            except SystemExit:
                out = None
            e.MPI.comm.Barrier()
            return out or ('refused', snap(watched) == before,
                files == sorted(os.listdir(folder)) and not (
                name == 'preparation' and os.listdir(path('save'))))

        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text):
                got = simmpi.universe(size).run(body, simmpi.Policy(order))
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        ctx.traces += 1
        for rank, (status, value, files) in enumerate(got):
            if str(value) == 'other':
                continue
            equal(status, 'done' if valid else 'refused',
                'answer on rank %d of %d' % (rank, size))
            if not valid:
                require(value, 'refused but changed')
                require(files, 'refused but files written')
        if valid:
            results.append(got[0][1])
        message = text.getvalue()
        if name != 'entropy':
            equal(message.count('Error: '), 0 if valid else 1, 'messages')
    if valid and len(results) > 1 and isinstance(results[0], np.ndarray):
        close(results[0], results[1], 'results', tol=1e-9)
    ctx.outcome((name, options, size, valid), True)

@check.cases
def enumerate_cases(tier):
    sizes = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)

    def cases(name, **options):
        for values in itertools.product(*options.values()):
            for size in sizes if name != 'preparation' else (1,): # script
                yield 'request', dict(name=name, size=size,
                    options=dict(zip(options, values)))

    both = False, True
    yield from cases('lattice', ibrav=sorted(set(range(-20, 100)) if tier !=
        'quick' else set(range(-15, 17)) | {90, 91, 92, -91}), cell=both,
        units=both)
    yield from cases('conductivity', n=(3, 4, 5), offset=(0, 0.5, -0.5, 2,
        -300), bend=(0, 0.5, 2, -2, 1e4), eps=(1e-10, 1e-3), dc_only=both,
        split=both)
    for angle in 60, 90, 120:
        for nq in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            wedge = []
            for k in itertools.product(range(nq), repeat=2):
                if not any(k in orbit(*p, nq, angle) for p in wedge):
                    wedge.append(k)
            lists = [wedge, list(itertools.product(range(nq), repeat=2))]
            lists += [wedge[:n] + wedge[n + 1:] for n in range(len(wedge))
                if len(wedge) > 1]
            # other members of the orbits
            lists += [[min(orbit(*k, nq, angle), key=lambda p: (p[0] * 7
                + p[1] * 5 + n) % 11) for k in wedge] for n in range(3)]
            for points in lists:
                yield from cases('mesh', nq=[nq], angle=[angle],
                    points=[points])
    yield from cases('memory', nk=(1, 2, 3), nmats=(2, 5), fraction=(0.5, 0.99,
        1.01, 2))
    yield from cases('springs', polar=both, sampled=both,
        change=('none', 'Z', 'off', 'file'))
    yield from cases('coupling', polar=both, sampled=('no', 'phonons', 'both',
        'now'), points=('none', 'given'))
    yield from cases('division', standardized=both)
    for sparse in both:
        for nk, nq in itertools.product([(1,), (2,), (1, 2), (1, 1, 2)],
                repeat=2):
            if (max(nk + nq) > 1 and not sparse) and (nk, nq) != ((2,), (2,)):
                continue
            for rydberg, mass, mass2 in itertools.product(both, repeat=3):
                yield from cases('dynamics', rydberg=[rydberg], ph_mass=[mass],
                    elph_mass=[mass2], sparse=[sparse], nk=[nk], nq=[nq])
    yield from cases('carriers', n=(1.0, 2.0, 2.5, 1, 2, 3.0), nx=(0.0, 0.1),
        f=('fd', 'two_fermi_dirac'))
    yield from cases('basis', given=both)
    yield from cases('preparation', dyn=both, out=both, suffix=('', '.xml'))
    yield from cases('entropy', order=(0, 1, 2, 3, 5), x=(-2.0, 0.0, 0.7))

check.main()
