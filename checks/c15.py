"""C15: occupation functions and Fermi level."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import itertools, math, warnings
import numpy as np
import scipy.special as sp

import elphmod.occupations as occ

from mc.common import Check, Violation, require, close, equal

check = Check('C15', 'exploration',
    rule='grid of arguments from the deep tails to the center for every '
    'smearing function; grid of level schemes, fillings, temperatures and '
    'starting points for the Fermi level; an outcome is trivial if the '
    'occupation is that of the ground state')

SQ = math.sqrt(math.pi)

def fd(x):
    f = sp.expit(-x)
    return (f, sp.expit(x) * f, f * sp.expit(x) * (f - sp.expit(x)),
        -(sp.xlogy(f, f) + sp.xlogy(sp.expit(x), sp.expit(x))))

def ga(x):
    g = np.exp(-x * x) / SQ
    return sp.erfc(x) / 2, g, -2 * x * g, g / 2

def H(n, x):
    return sp.eval_hermite(n, x)

def mp(order):
    def f(x):
        g = np.exp(-x * x)
        A = [(-1) ** n / (math.factorial(n) * 4 ** n * SQ)
            for n in range(order + 1)]
        step = sp.erfc(x) / 2 + sum(A[n] * H(2 * n - 1, x) * g
            for n in range(1, order + 1))
        delta = sum(A[n] * H(2 * n, x) * g for n in range(order + 1))
        prime = -sum(A[n] * H(2 * n + 1, x) * g for n in range(order + 1))
        entropy = A[order] * H(2 * order, x) * g / 2
        return step, delta, prime, entropy if order == 1 else None
    return f

def mv(x):
    # cold smearing: delta = (2 - sqrt(2) x) exp(-(x - 1/sqrt(2))^2) / sqrt(pi)
    # with reflected argument
    y = x + 1 / math.sqrt(2)
    g = np.exp(-y * y)
    return (sp.erfc(y) / 2 + g / math.sqrt(2 * math.pi),
        (2 + math.sqrt(2) * x) * g / SQ,
        (math.sqrt(2) - 2 * y * (2 + math.sqrt(2) * x)) * g / SQ,
        y * g / math.sqrt(2 * math.pi))

def lo(x):
    return (0.5 - np.arctan(x / math.pi) / math.pi,
        1 / (x ** 2 + math.pi ** 2), -2 * x / (x ** 2 + math.pi ** 2) ** 2,
        None)

def dfd(d):
    def f(x):
        a, b = fd(x - d), fd(x + d)
        return tuple((p + q) / 2 for p, q in zip(a[:3], b[:3])) + (
            (a[3] + b[3] + d * (a[0] - b[0])) / 2,)
    return f

def tfd(d):
    def f(x):
        lower = x < 0
        y = np.where(lower, x + d, x - d)
        a = fd(y)
        s = np.where(lower, -d * a[0] + d, d * a[0])
        return a[:3] + (a[3] + s,)
    return f

def he(x):
    return (np.where(x > 0, 0.0, np.where(x < 0, 1.0, 0.5)),
        np.where(x == 0, np.inf, 0.0), None, np.zeros_like(x))

FUNCTIONS = dict(
    fermi_dirac=(occ.fermi_dirac, fd, {}),
    gauss=(occ.gauss, ga, {}),
    mp1=(occ.methfessel_paxton, mp(1), dict(order=1)),
    mp0=(occ.methfessel_paxton, mp(0), dict(order=0)),
    mp2=(occ.methfessel_paxton, mp(2), dict(order=2)),
    mp3=(occ.methfessel_paxton, mp(3), dict(order=3)),
    mp4=(occ.methfessel_paxton, mp(4), dict(order=4)),
    mp7=(occ.methfessel_paxton, mp(7), dict(order=7)),
    mv=(occ.marzari_vanderbilt, mv, {}),
    lorentz=(occ.lorentz, lo, {}),
    double5=(occ.double_fermi_dirac, dfd(5.0), dict(d=5.0)),
    double1=(occ.double_fermi_dirac, dfd(1.3), dict(d=1.3)),
    two5=(occ.two_fermi_dirac, tfd(5.0), dict(d=5.0)),
    two1=(occ.two_fermi_dirac, tfd(0.7), dict(d=0.7)),
    heaviside=(occ.heaviside, he, {}),
    )

X = sorted({s * x for s in (1, -1) for x in (0.0, 1e-9, 1e-3, 0.1, 0.25, 0.5,
    1 / math.sqrt(2), 1.0, math.sqrt(2), 1.5, 2.0, 2.7, 3.0, 4.4, 5.0, 7.5,
    10.0, 20.0, 36.0, 37.0, 40.0, 100.0, 300.0, 500.0, 708.0, 709.0, 710.0,
    800.0, 1e4, 1e8)})

class attributes:
    def __init__(self, f, **settings):
        self.f, self.settings = f, settings

    def __enter__(self):
        self.saved = {k: getattr(self.f, k) for k in self.settings}
        for k, v in self.settings.items():
            setattr(self.f, k, v)

    def __exit__(self, *args):
        for k, v in self.saved.items():
            setattr(self.f, k, v)

def parts(f):
    return [f, f.delta, getattr(f, 'delta_prime', None),
        getattr(f, 'entropy', None)]

@check.family
def functions(ctx, name, points):
    """Values, tails, and independence of the shape of the argument."""

    f, reference, settings = FUNCTIONS[name]
    x = np.array(points)

    with attributes(f, **settings):
        with np.errstate(all='ignore'):
            want = reference(x)

        for i, (g, w) in enumerate(zip(parts(f), want)):
            if w is None or g is None:
                continue

            x0 = x.copy()

            with np.errstate(all='ignore'):
                v = g(x)
            equal(x.tolist(), x0.tolist(), 'argument of %s (%d)' % (name, i))
            require(np.shape(v) == x.shape, 'shape of %s (%d)', name, i)
            finite = np.isfinite(w)
            require(np.all(np.isfinite(v) == finite),
                '%s (%d) not finite at %s: %s', name, i, x, v)
            close(np.where(finite, v, 0.0), np.where(finite, w, 0.0),
                '%s (%d) at %s' % (name, i, short(x)), tol=2e-14, rel=1e-10)

            for shape in ((-1, 1), (1, 1, -1)):
                u = g(x.reshape(shape))
                equal(np.ravel(u).tolist(), np.ravel(v).tolist(),
                    '%s (%d) for array of shape %s' % (name, i, shape))

            for n in range(len(x)):
                close(np.where(finite[n], g(float(x[n])), 0.0),
                    np.where(finite[n], v[n], 0.0),
                    '%s (%d) for number' % (name, i), tol=1e-15, rel=1e-12)

                if x[n] == int(x[n]) and abs(x[n]) < 1e6:
                    with np.errstate(all='ignore'):
                        same(g(int(x[n])), v[n],
                            '%s (%d) for integer' % (name, i))

            integers = [n for n in range(len(x))
                if x[n] == int(x[n]) and abs(x[n]) < 1e6]

            if integers:
                with np.errstate(all='ignore'):
                    same(g(x[integers].astype(int)), v[integers],
                        '%s (%d) for integers' % (name, i))

            ctx.outcome((name, i, v), nontrivial=np.any((v != 0) & (v != 1)))

def same(u, v, what):
    u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
    finite = np.isfinite(v)
    require(np.all(np.isfinite(u) == finite)
        and np.all((u == v) | finite), what)
    close(np.where(finite, u, 0.0), np.where(finite, v, 0.0), what,
        tol=1e-15, rel=1e-12)

def short(x):
    return '[%g ... %g]' % (min(x), max(x))

@check.family
def calculus(ctx, name, x):
    """Delta functions are derivatives; entropy belongs to the step."""

    f, reference, settings = FUNCTIONS[name]

    def diff(g, h=1e-2):
        a = [(g(x + m * h) - g(x - m * h)) / (2 * m * h) for m in (1, 2, 3)]
        return 1.5 * a[0] - 0.6 * a[1] + 0.1 * a[2]

    with attributes(f, **settings):
        F, D, P, S = parts(f)

        close(diff(F), -D(x), '%s: derivative of step' % name, tol=1e-7)
        if P is not None:
            close(diff(D), P(x), '%s: derivative of delta' % name, tol=1e-6)
        if S is not None and not (name.startswith('mp') and name != 'mp1'):
            close(diff(S), -x * D(x), '%s: derivative of entropy' % name,
                tol=1e-7)
        ctx.outcome((name, x, D(x)))

@check.family
def conjugate(ctx, x, y):
    """Fermi and Bose functions of complex arguments."""

    z = complex(x, y)
    w = np.exp(complex(min(x, 700.0), y))

    if abs(w + 1) > 1e-6:
        close(occ.fermi_dirac(z), 1 / (w + 1), 'Fermi function at %s' % z,
            tol=1e-12)
        close(occ.fermi_dirac(z) + occ.fermi_dirac(-z), 1.0, 'symmetry',
            tol=1e-9)
        ctx.outcome(occ.fermi_dirac(z))

    if abs(w - 1) > 1e-6:
        close(occ.bose_einstein(z), 1 / (w - 1), 'Bose function at %s' % z,
            tol=1e-12)
        ctx.outcome(occ.bose_einstein(z))

    for f in occ.fermi_dirac, occ.bose_einstein:
        for a in [z, -z], [x, -x]:
            a = np.array(a)
            b = a.copy()
            with np.errstate(all='ignore'):
                v = f(a)
                equal(a.tolist(), b.tolist(), 'argument')
                equal(repr(f(a).tolist()), repr(v.tolist()), 'second call')

    if y == 0.0 and x:
        close(occ.bose_einstein(np.array([x, x])), [1 / math.expm1(min(x,
            700.0))] * 2, 'Bose function', tol=1e-12,
            rel=1e-12 + 4e-16 / abs(x)) # cancellation next to pole

@check.family
def matsubara(ctx, x, nmats):
    nu = (2 * np.arange(nmats) + 1) * np.pi

    s = sum(-2 * x / (v ** 2 + x ** 2) for v in nu)
    f = occ.fermi_dirac_matsubara(x, nmats=nmats)

    close(f, 0.5 + s, 'Matsubara sum', tol=1e-12)
    require(abs(f - fd(np.array(x))[0]) <= abs(x) / (np.pi ** 2 * nmats)
        + 1e-12, 'Matsubara sum does not converge to Fermi function')

    close(occ.fermi_dirac_matsubara_delta(x, nmats=nmats),
        sum(2 * (v * v - x * x) / (v * v + x * x) ** 2 for v in nu),
        'Matsubara delta', tol=1e-12)

    h = 1e-3
    close(occ.fermi_dirac_matsubara_delta_prime(x, nmats=nmats),
        (occ.fermi_dirac_matsubara_delta(x + h, nmats=nmats)
        - occ.fermi_dirac_matsubara_delta(x - h, nmats=nmats)) / (2 * h),
        'Matsubara delta prime', tol=1e-6)

    xs = np.array([[x, -x], [0.0, 2 * x]])
    for g in (occ.fermi_dirac_matsubara, occ.fermi_dirac_matsubara_delta,
            occ.fermi_dirac_matsubara_delta_prime):
        v = g(xs, nmats=nmats)
        for i in range(2):
            for j in range(2):
                close(v[i, j], g(xs[i, j], nmats=nmats), 'array')

    ctx.outcome((x, nmats, f), nontrivial=x != 0)

NAMES = {
    'gauss': ['gaussian', 'gauss'],
    'methfessel_paxton': ['methfessel-paxton', 'm-p', 'mp'],
    'marzari_vanderbilt': ['marzari-vanderbilt', 'cold', 'm-v', 'mv'],
    'fermi_dirac': ['fermi-dirac', 'f-d', 'fd'],
    'lorentz': ['lorentzian', 'lorentz'],
    'heaviside': ['heaviside'],
    }

@check.family
def names(ctx):
    for f, aliases in NAMES.items():
        f = getattr(occ, f)
        for name in aliases:
            for case in name, name.upper(), name.capitalize():
                require(occ.smearing(case) is f, 'smearing %s', case)
                require(occ.smearing(smearing=case, degauss=0.1) is f,
                    'smearing %s from input file', case)
                ctx.outcome(case)
        require(occ.smearing(f) is f, 'function %s not passed on', f)
    require(occ.smearing() is occ.gauss, 'default smearing')
    require(occ.smearing(degauss=1) is occ.gauss, 'default smearing')

t = np.linspace(0, 6, 24)

LEVELS = dict(
    one=[[0.0]],
    two=[[-1.0, 1.0]],
    three=[[-2.0, 0.1, 0.3]],
    degenerate=[[0.0, 0.0, 1.0]],
    band=np.cos(t)[:, None],
    bands=np.stack([np.cos(t), 3 + np.cos(t + 1)], axis=1),
    mesh=np.stack([np.cos(t), np.sin(2 * t)], axis=1).reshape((4, 6, 2)),
    shifted=[[100.0, 101.0, 103.0]],
    flat=[[0.0, 0.0], [0.0, 0.0]],
    cube=np.cos(np.arange(24.0)).reshape((2, 3, 2, 2)),
    )

REFERENCE = dict(fd=fd, gauss=ga, mp=mp(1), mv=mv, lorentz=lo)

@check.family
def fermi_level(ctx, levels, kT):
    e = np.array(LEVELS[levels])
    bands = e.shape[-1]
    points = e.size // bands

    for f in REFERENCE:
        def number(mu):
            return 2 * REFERENCE[f]((e - mu) / kT)[0].sum() / points

        for filling in FILLINGS:
            n = 2 * bands * filling
            e0 = e.copy()

            with np.errstate(all='ignore'):
                mu = occ.find_Fermi_level(n, e, kT=kT, f=f)

            what = '%s, %s, n = %g, kT = %g' % (f, levels, n, kT)

            equal(e.tolist(), e0.tolist(), 'energies modified, ' + what)
            require(abs(number(mu) - n) <= 1.1e-5, 'number of electrons %g, '
                '%s', number(mu), what)

            with np.errstate(all='ignore'):
                # function instead of name, looser tolerance, other shape
                nu = occ.find_Fermi_level(n, e.reshape((points, 1, bands)),
                    kT, occ.smearing(f), tol=1e-3)

                require(abs(number(nu) - n) <= 1.1e-3, 'number of electrons, '
                    'other mesh and tolerance, %s', what)

                # equivalent problem: shifted and scaled energies
                nu = occ.find_Fermi_level(n, 3.0 * e + 2.0, kT=3.0 * kT, f=f)
                require(abs(number((nu - 2.0) / 3.0) - n) <= 1.1e-5,
                    'number of electrons for scaled energies, %s', what)

                # repeated bands
                nu = occ.find_Fermi_level(2 * n, np.concatenate((e, e),
                    axis=-1), kT=kT, f=f)
                require(abs(number(nu) - n) <= 1.1e-5,
                    'number of electrons for repeated bands, %s', what)

                # integer and array-like input as read from a file
                if n == int(n):
                    nu = occ.find_Fermi_level(int(n), e, kT=kT, f=f)
                    require(abs(number(nu) - n) <= 1.1e-5, 'integer, %s', what)

                # continuation from solution
                nu = occ.find_Fermi_level(n, e, kT=kT, f=f, mu=mu)
                equal(nu, mu, 'restart, ' + what)

            ctx.outcome((levels, f, filling, kT, mu))

@check.family
def simple(ctx, levels, kT, damp):
    e = np.array(LEVELS[levels])
    bands = e.shape[-1]

    for f in 'fd', 'gauss', 'lorentz':
        for filling in 0.25, 0.5, 0.75:
            n = 2 * bands * filling
            mu = occ.find_Fermi_level_simple(n, e, kT=kT, f=f, damp=damp)
            N = 2 * REFERENCE[f]((e - mu) / kT)[0].mean() * bands
            require(abs(N - n) <= 1.1e-5, 'simple iteration for %s', levels)
            ctx.outcome((levels, f, filling, kT, mu))

FILLINGS = (0.01, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99)

@check.cases
def enumerate_cases(tier):
    fine = 25 if tier == 'quick' else 200

    for name in FUNCTIONS:
        yield 'functions', dict(name=name, points=X)
        yield 'functions', dict(name=name,
            points=[i / 8 for i in range(-8 * fine // 5, 8 * fine // 5 + 1)])

        if name != 'heaviside':
            for i in range(-8 * fine, 8 * fine + 1):
                x = i / fine
                if name.startswith('two') and abs(x) < 0.1:
                    continue
                yield 'calculus', dict(name=name, x=x)

    for x in X:
        for y in (0.0, 0.1, 1.0, math.pi / 2, 3.0, -2.0, 2 * math.pi):
            yield 'conjugate', dict(x=x, y=y)

    for x in (0.0, 0.3, -1.0, 2.5, 7.0, -30.0):
        for nmats in (1, 2, 10, 1000):
            yield 'matsubara', dict(x=x, nmats=nmats)

    yield 'names', {}

    for levels in LEVELS:
        for kT in (0.001, 0.005, 0.025, 0.1, 0.3, 2.0) if tier == 'quick' else (
                0.001, 0.002, 0.005, 0.01, 0.025, 0.05, 0.1, 0.2, 0.3, 0.5,
                1.0, 2.0, 5.0):
            yield 'fermi_level', dict(levels=levels, kT=kT)
        for kT in 0.3, 1.0:
            if levels != 'shifted':
                yield 'simple', dict(levels=levels, kT=kT, damp=0.1)

check.main()
