"""C21: data on real-space grids and basic helpers."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import contextlib, io, itertools, math
import numpy as np

import elphmod.el
import elphmod.misc as misc

from mc import gen
from mc.common import Check, Violation, require, close, equal

misc.verbosity = 0

check = Check('C21', 'model_checking',
    rule='all grid shapes with up to 3 (4) points per direction and numbers of '
    'atoms; all sequences of progress-bar operations up to length 8 (10); all '
    'balanced expressions up to length 8 (10); all point sets of up to 5 (6) '
    'points on a line or in a plane; oracle: files written independently, '
    'reference automaton, recursive expansion, connected components; trivial: '
    'empty input')

# --- grids

def grid(shape, nat, lat):
    data = gen.real(shape, 'grid', *shape) * 10.0 ** gen.real(shape, 'exp')
    data = np.array([float('%.5e' % x) for x in data.flat]).reshape(shape)
    r0 = np.round(gen.real((3,), 'origin', lat) * 3, 6)
    a = np.round(gen.lattice(lat), 7)
    tau = np.round(gen.real((nat, 3), 'tau', nat) * 4, 7)
    return r0, a, tau, data

def xsf_text(r0, a, X, tau, data, per_line, preamble):
    text = preamble + 'PRIMCOORD\n %d 1\n' % len(X)
    for x, t in zip(X, tau):
        text += '%s %.7f %.7f %.7f\n' % (x, *t)
    text += '\n\nBEGIN_BLOCK_DATAGRID_3D\nfield\n'
    text += 'BEGIN_DATAGRID_3D_UNKNOWN\n %d %d %d\n' % data.shape
    for v in [r0, *a]:
        text += '%.7f %.7f %.7f\n' % tuple(v)
    n1, n2, n3 = data.shape
    values = [data[i, j, k] for k in range(n3) for j in range(n2)
        for i in range(n1)]
    for i in range(0, len(values), per_line):
        text += ' '.join('%.5e' % x for x in values[i:i + per_line]) + '\n'
    return text + 'END_DATAGRID_3D\nEND_BLOCK_DATAGRID_3D\n'

def cube_text(r0, a, X, tau, data, per_line):
    text = 'title\n comment 5\n %d %.7f %.7f %.7f\n' % (len(X), *r0)
    for n, v in zip(data.shape, a):
        text += '%d %.12f %.12f %.12f\n' % (n, *(v / n))
    for x, t in zip(X, tau):
        text += '%d 0.0 %.7f %.7f %.7f\n' % (x, *t)
    n1, n2, n3 = data.shape
    for i in range(n1):
        for j in range(n2):
            row = data[i, j]
            for k in range(0, n3, per_line):
                text += ' '.join('%.5e' % x for x in row[k:k + per_line])
                text += '\n'
    return text

def write(name, text):
    with open(name, 'w') as f:
        f.write(text)

def agree(got, want, exact=True):
    for g, w, what in zip(got, want, ('origin', 'spanning vectors', 'atoms',
            'positions', 'data')):
        if what == 'atoms':
            equal(list(map(str, g)), list(map(str, w)), what)
        elif what == 'data' and isinstance(w, tuple):
            equal(tuple(map(int, g)), w, 'shape')
        else:
            equal(np.shape(g), np.shape(w), 'shape of %s' % what)
            close(g, w, what, tol=1e-9)

@check.family
def xsf(ctx, shape, nat, lat, per_line):
    shape = tuple(shape)
    r0, a, tau, data = grid(shape, nat, lat)
    X = ['Ta', '16', 'S', 'H'][:nat]
    for preamble in '', '# comment\n\nCRYSTAL\nPRIMVEC\n1 0 0\n0 1 0\n0 0 1\n':
        write('x.xsf', xsf_text(r0, a, X, tau, data, per_line, preamble))
        agree(misc.read_xsf('x.xsf'), (r0, a, X, tau, data))
        agree(misc.read_xsf('x.xsf', only_header=True), (r0, a, X, tau, shape))
    for given in data, np.asfortranarray(data), data[::-1][::-1]:
        misc.write_xsf('y.xsf', r0, a, X, tau, given)
        agree(misc.read_xsf('y.xsf'), (r0, a, X, tau, data))
    misc.write_xsf('z.xsf', r0, a, X, tau, shape, only_header=True)
    agree(misc.read_xsf('z.xsf', only_header=True), (r0, a, X, tau, shape))
    # first index runs fastest
    block = open('y.xsf').read().split('3D_UNKNOWN')[1].split('END')[0]
    numbers = list(map(float, block.split()))[15:]
    close(numbers, data.flatten(order='F'), 'order of data')
    ctx.outcome((shape, nat, lat), data.size > 1)

@check.family
def cube(ctx, shape, nat, lat, per_line):
    shape = tuple(shape)
    r0, a, tau, data = grid(shape, nat, lat)
    X = [73, 16, 6, 1][:nat]
    write('x.cube', cube_text(r0, a, X, tau, data, per_line))
    agree(misc.read_cube('x.cube'), (r0, a, X, tau, data))
    agree(misc.read_cube('x.cube', only_header=True), (r0, a, X, tau, shape))
    ctx.outcome((shape, nat, lat), data.size > 1)

@check.family
def points(ctx, shape, lat, shared):
    """Real-space grid includes both end points."""

    shape = tuple(shape)
    r0, a, _, _ = grid(shape, 1, lat)
    r = misc.real_space_grid(shape, r0, a, shared_memory=shared)
    equal(r.shape, shape + (3,), 'shape')
    for idx in np.ndindex(*shape):
        x = [i / (n - 1) if n > 1 else 0.0 for i, n in zip(idx, shape)]
        close(r[idx], r0 + np.dot(x, a), 'grid point')
    ctx.outcome((shape, lat, shared), r.size > 3)

@check.family
def wannier(ctx, size, shape, normalize, buffer, shared):
    """Wannier functions of tight-binding model."""

    shape = tuple(shape)
    el = gen.el_model(elphmod, size=size)
    el.to_hrdat('x')
    W, stored = [], None
    for n in range(size):
        r0, a, tau, _ = grid(shape, 2, 'tri')
        w = gen.real(shape, 'wannier', n)
        W.append(w)
        write('x_%05d.xsf' % (n + 1), xsf_text(r0, a, ['C', 'H'], tau, w, 6,
            ''))
    W = np.array(W)
    dV = abs(np.linalg.det(a)) / np.prod(shape)
    if normalize:
        for w in W:
            w /= np.sqrt((w ** 2).sum() * dV)
    for repeat in range(3 if buffer else 1):
        if repeat:
            for n in range(size):
                os.remove('x_%05d.xsf' % (n + 1)) if repeat == 1 else None
        new = elphmod.el.Model('x', read_xsf=True, normalize_wf=normalize,
            buffer_wf=buffer, shared_memory=shared)
        equal(new.W.shape, (size,) + shape, 'shape')
        close(new.W, W, 'Wannier functions', tol=1e-9)
        close(new.r, misc.real_space_grid(shape, r0, a), 'grid')
        close(new.dV, dV, 'volume element')
        equal(new.atom_order, ['C', 'H'], 'atoms')
        close(new.tau, tau, 'positions')
    ctx.outcome((size, shape, normalize, buffer, shared))

# --- progress bars

BARS = [(1, 5, 'a'), (3, 7, 'bc'), (8, 7, 'bc'), (0, 9, 'x')]

@check.family
def bars(ctx, first, depth, kinds):
    """All sequences of creating and updating up to two progress bars."""

    specs = [BARS[k] for k in kinds]
    OPS = [('new', 0), ('new', 1), ('update', 0), ('update', 1)]
    found = set()
    for rest in itertools.product(OPS, repeat=depth - 1):
        word = (OPS[first],) + rest
        # each bar is created before update and updated as often as announced
        live, legal = {}, True
        for op, i in word:
            if op == 'new':
                # a bar is not replaced before it has finished
                if live.get(i, 0):
                    legal = False
                live[i] = specs[i][0]
            else:
                if live.get(i, 0) <= 0:
                    legal = False
                live[i] = live.get(i, 0) - 1
            if not legal:
                break
        if not legal:
            continue
        misc.StatusBar.in_progress = False
        misc.verbosity = 3
        out = io.StringIO()
        want, active, done, bar = '', None, 0, {}
        try:
            with contextlib.redirect_stdout(out):
                for op, i in word:
                    count, width, title = specs[i]
                    if op == 'new':
                        bar[i] = misc.StatusBar(count, width=width,
                            title=title)
                        if count and active is None:
                            active, done, drawn = i, 0, 0
                            want += (' %s ' % title).center(width, '_') + '\n'
                    else:
                        bar[i].update()
                        if active == i:
                            done += 1
                            want += '=' * (width * done // count - drawn)
                            drawn = width * done // count
                            if done == count:
                                want += '\n'
                                active = None
                    found.add((active, done, tuple(sorted(bar))))
                    ctx.transitions += 1
                    equal(out.getvalue(), want, 'output after %s' % (word,))
        finally:
            misc.verbosity = 0
            misc.StatusBar.in_progress = False
        ctx.traces += 1
    ctx.states += len(found)
    ctx.outcome((first, depth, kinds, sorted(map(str, found))), len(found) > 0)

@check.family
def bar_width(ctx, count):
    """Finished bars have full width."""

    for width in (1, 2, 10, 60, 61):
        out = io.StringIO()
        misc.StatusBar.in_progress = False
        misc.verbosity = 3
        try:
            with contextlib.redirect_stdout(out):
                bar = misc.StatusBar(count, width=width, title='x')
                for n in range(count):
                    bar.update()
            equal(misc.StatusBar.in_progress, False, 'in progress')
        finally:
            misc.verbosity = 0
            misc.StatusBar.in_progress = False
        if count:
            equal(out.getvalue().split('\n')[1:], ['=' * width, ''],
                'finished bar')
        else:
            equal(out.getvalue(), '', 'empty bar')
    for verbosity in range(3):
        out = io.StringIO()
        misc.verbosity = verbosity
        try:
            with contextlib.redirect_stdout(out):
                bar = misc.StatusBar(count)
                for n in range(count):
                    bar.update()
        finally:
            misc.verbosity = 0
        equal(out.getvalue(), '', 'silent bar')
    ctx.outcome(count, count > 0)

# --- expressions

def expand(expr, sd, od, cd):
    """Recursive-descent expansion."""

    def items(i):
        """List of alternatives until closing delimiter."""
        done, current = [], ['']
        while i < len(expr) and not expr.startswith(cd, i):
            if expr.startswith(sd, i):
                done += current
                current = ['']
                i += len(sd)
            elif expr.startswith(od, i):
                inner, i = items(i + len(od))
                i += len(cd)
                current = [x + y for x in current for y in inner]
            else:
                current = [x + expr[i] for x in current]
                i += 1
        return done + current, i

    return items(0)[0]

DELIMITERS = [(',', '{', '}'), (';', '[', ']'), ('|', '(', ')'),
    (', ', '{', '}'), ('&', '^', '$')]

@check.family
def expressions(ctx, length, start):
    n = 0
    for rest in itertools.product('aB{},', repeat=length - len(start)):
        word = start + ''.join(rest)
        depth = 0
        for c in word:
            depth += (c == '{') - (c == '}')
            if depth < 0:
                break
        if depth:
            continue
        for sd, od, cd in DELIMITERS if n % 16 == 0 else DELIMITERS[:1]:
            expr = word.replace(',', sd).replace('{', od).replace('}', cd)
            got = list(misc.split(expr, sd, od, cd))
            want = expand(expr, sd, od, cd)
            equal(sorted(got), sorted(want), 'expansion of %r' % expr)
            if word.count('{') <= 1:
                equal(got, want, 'order of expansion of %r' % expr)
        # spaces around separators
        if n % 16 == 1:
            expr = word.replace(',', ' , ')
            equal(sorted(misc.split(expr)), sorted(expand(word, ',', '{',
                '}')), 'expansion of %r' % expr)
        n += 1
    ctx.traces += n
    ctx.outcome((length, start, n), n > 0)

# --- groups, weights, indices, extrema

@check.family
def groups(ctx, n, first, dim, kind):
    """Groups are connected components."""

    values = (0.0, 0.9, 1.8, 2.9, 3.9, 4.7)
    for rest in itertools.product(range(len(values)), repeat=n - 1):
        idx = [first, *rest][:n]
        x = np.array([values[i] for i in idx])
        if dim == 2:
            x = np.array([[values[i], values[(i * 5 + 2) % 6]] for i in idx])
        if kind == 'complex':
            x = x * (0.6 + 0.8j)
        x = x.reshape((n,) + x.shape[1:])
        for eps in (0.5, 1.0 - 1e-9, 1.05):
            comp = list(range(n))
            for i, j in itertools.combinations(range(n), 2):
                if np.abs(x[i] - x[j]).max() < eps:
                    a, b = comp[i], comp[j]
                    comp = [a if c == b else c for c in comp]
            want = sorted(sorted(i for i in range(n) if comp[i] == c)
                for c in set(comp))
            got = sorted(sorted(map(int, g)) for g in misc.group(x, eps=eps))
            equal(got, want, 'groups of %s' % (x.tolist(),))
        ctx.traces += 1
    ctx.outcome((n, first, dim, kind), n > 0)

@check.family
def helpers(ctx, n):
    # integration weights of trapezoidal rule
    x = np.sort(gen.real((n + 1,), 'x', n)) * 3 + np.arange(n + 1.0)
    for s in x, x[::-1], x[::2] if n > 1 else x, np.arange(n + 1) ** 2:
        if len(s) < 2:
            continue
        f = s ** 2 + 1
        w = misc.differential(s)
        close(w @ f, sum((f[i + 1] + f[i]) / 2 * (s[i + 1] - s[i])
            for i in range(len(s) - 1)), 'trapezoidal rule')
        close(w.sum(), s[-1] - s[0], 'sum of weights')
    # index of vector
    for dim in 1, 2, 3:
        for vectors in itertools.islice(itertools.product(itertools.product(
                (-1, 0, 1), repeat=dim), repeat=n), 0, None, 1 + 3 ** (dim * n)
                // 500):
            V = np.array(vectors, dtype=int).reshape((n, dim))
            for v in itertools.product((-1, 0, 1), repeat=dim):
                got = misc.vector_index(V, np.array(v))
                want = vectors.index(v) if v in vectors else None
                require(got is None if want is None else got == want,
                    'index of %s in %s: %s', v, vectors, got)
    ctx.outcome(n, n > 0)

@check.family
def extremum(ctx, x0, c, a):
    """Extremum of parabola."""

    def f(x):
        return a * (x - x0) ** 2 + c

    argv = sys.argv
    for xs in itertools.permutations((-2.0, 0.5, 1.0, 3.0), 3):
        args = [*xs, *map(f, xs)]
        for given in ['program'], ['program', 'x'], ['program', *'123456']:
            sys.argv = given
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got = misc.minimum(*args)
                    sys.argv = ['minimum', *map(repr, args)]
                    got2 = misc.minimum()
            finally:
                sys.argv = argv
            if a:
                close([got, got2], [x0, x0], 'extremum', tol=1e-9)
            else:
                require(got is None and got2 is None, 'no extremum')
    for wrong in [], ['1'], ['1'] * 7:
        sys.argv = ['minimum', *wrong]
        try:
            misc.minimum()
        except SystemExit:
            pass
        else:
            raise Violation('wrong number of arguments accepted')
        finally:
            sys.argv = argv
    ctx.outcome((x0, c, a))

# fixed by definition of SI units, or measured (CODATA) in SI units:
EXACT = dict(cSI=299792458.0, eVSI=1.602176634e-19, hSI=6.62607015e-34,
    kBSI=1.380649e-23, NA=6.02214076e23)
MEASURED = dict(meSI=9.10938371e-31, eps0=8.85418782e-12, Ry=13.6056931230,
    a0=0.529177210903)

def derived():
    c, e, h, k, N = (EXACT[x] for x in ('cSI', 'eVSI', 'hSI', 'kBSI', 'NA'))
    m, eps = MEASURED['meSI'], MEASURED['eps0']
    hbar = h / (2 * math.pi)
    return dict(hbarSI=hbar, uSI=1e-3 / N, kB=k / e, cmm1=100 * h * c / e,
        Ry=m * e ** 4 / (8 * eps ** 2 * h ** 2) / e,
        Ha=m * (e ** 2 / (4 * math.pi * eps * hbar)) ** 2 / e,
        a0=4 * math.pi * eps * hbar ** 2 / (m * e ** 2) * 1e10,
        uRy=1e-3 / N / (2 * m),
        # atomic units: e^2 = 2, hbar = 1
        ohmRy=e ** 2 / (2 * hbar),
        ohmmRy=e ** 2 / (2 * hbar) * m * e ** 2 / (4 * math.pi * eps
            * hbar ** 2))

@check.family
def constants(ctx, name, kind):
    """Physical constants and conversion factors."""

    want, tol = dict(exact=(EXACT, 1e-15), measured=(MEASURED, 1e-8),
        derived=(derived(), 5e-8))[kind]
    close(getattr(misc, name) / want[name], 1.0, 'constant %s' % name, tol=tol)
    ctx.outcome((name, kind))

@check.family
def threads(ctx, n):
    """Commands to change number of threads."""

    import subprocess
    env_ = dict(os.environ, PYTHONPATH=env.REPO)
    for x in list(env_):
        if x.endswith('_NUM_THREADS'):
            del env_[x]
    names = ['%s_NUM_THREADS' % x for x in ('MKL', 'NUMEXPR', 'OMP',
        'OPENBLAS', 'VECLIB_MAXIMUM')]
    names[-1] = 'VECLIB_MAXIMUM_THREADS'
    out = subprocess.check_output(['sh', '-c', 'eval "$(%s %s %s)"; echo %s'
        % (sys.executable, os.path.join(env.REPO, 'bin', 'elphmodenv'),
        n or '', ' '.join('${%s:-unset}' % x for x in names))], env=env_)
    equal(out.decode().split(), ['%d' % (n or 1)] * len(names), 'threads')
    ctx.outcome(n)

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'
    for kind, group in dict(exact=EXACT, measured=MEASURED,
            derived=derived()).items():
        for name in group:
            yield 'constants', dict(name=name, kind=kind)
    for n in 0, 1, 2, 7, 16:
        yield 'threads', dict(n=n)
    for shape in itertools.product(range(1, 5 if thorough else 4), repeat=3):
        for nat in 0, 1, 4:
            for per_line in 1, 5, 6:
                for lat in ('tri', 'hex') if per_line == 6 else ('tri',):
                    yield 'xsf', dict(shape=shape, nat=nat, lat=lat,
                        per_line=per_line)
                    yield 'cube', dict(shape=shape, nat=nat, lat=lat,
                        per_line=per_line)
        for lat in gen.LATTICES:
            for shared in False, True:
                yield 'points', dict(shape=shape, lat=lat, shared=shared)
    for size in 1, 2, 3:
        for shape in (2, 3, 4), (1, 1, 5), (3, 3, 3):
            for normalize, buffer, shared in itertools.product((False, True),
                    repeat=3):
                yield 'wannier', dict(size=size, shape=shape,
                    normalize=normalize, buffer=buffer, shared=shared)
    for first in range(4):
        for depth in range(1, 11 if thorough else 9):
            for kinds in itertools.product(range(len(BARS)), repeat=2):
                yield 'bars', dict(first=first, depth=depth, kinds=kinds)
    for count in range(0, 130):
        yield 'bar_width', dict(count=count)
    for length in range(0, 11 if thorough else 9):
        if length < 7:
            yield 'expressions', dict(length=length, start='')
        else:
            for start in itertools.product('aB{},', repeat=2):
                yield 'expressions', dict(length=length, start=''.join(start))
    for n in range(1, 7 if thorough else 6):
        for first in range(6):
            for dim in 1, 2:
                for kind in 'real', 'complex':
                    yield 'groups', dict(n=n, first=first, dim=dim, kind=kind)
    for n in range(5):
        yield 'helpers', dict(n=n)
    for x0 in -1.5, 0.0, 0.25:
        for c in 0.0, -3.0:
            for a in 1.0, -0.3, 0.0:
                yield 'extremum', dict(x0=x0, c=c, a=a)

check.main()
