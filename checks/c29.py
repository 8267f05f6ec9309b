"""C29: results do not depend on the memory layout of arguments."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import functools, importlib, inspect, pkgutil, types
import numpy as np

from mc import common
from mc.common import Check, Violation, Timeout

for _, name, _ in pkgutil.walk_packages(elphmod.__path__, 'elphmod.'):
    if not name.endswith('__main__'):
        try:
            importlib.import_module(name)
        except ImportError:
            pass # optional dependencies

MODULES = [module for name, module in sorted(sys.modules.items())
    if name.startswith('elphmod')]

elphmod.misc.verbosity = 0

check = Check('C29', 'exploration',
    rule='all cases of the listed checks with all arrays passed from outside '
    'the package in other memory layouts; oracle: that of the respective '
    'check; trivial: calls without arrays')

def fortran(x):
    return np.array(x, order='F')

def strided(x):
    """View of every other element in reverse order."""

    if not x.ndim:
        return x
    y = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype)
    view = y[tuple(slice(None, None, -2) for n in x.shape)]
    view[...] = x
    return view

def readonly(x):
    y = np.array(x)
    y.flags.writeable = False
    return y

LAYOUTS = dict(fortran=fortran, strided=strided, readonly=readonly)

# data to be modified in place
ALLOWED = {('bravais.complete', 0), ('plot.colorbar', 0), ('ph.asr', 0),
    ('ph.zasr', 0)}

class Layout:
    depth = 0
    calls = 0
    change = None

    def convert(self, x):
        if type(x) is np.ndarray and x.dtype != object:
            self.calls += 1
            return self.change(x)
        if type(x) in (list, tuple):
            new = [self.convert(y) for y in x]
            if any(y is not z for y, z in zip(new, x)):
                return type(x)(new)
        return x

    def wrap(self, f, name, method):
        skip = 1 if method else 0
        try:
            parameters = list(inspect.signature(f).parameters)
        except (TypeError, ValueError):
            return f

        @functools.wraps(f)
        def wrapper(*args, **kwargs):
            if self.depth or self.change is None:
                return f(*args, **kwargs)
            args = list(args)
            for n in range(skip, len(args)):
                if (name, n - skip) not in ALLOWED:
                    args[n] = self.convert(args[n])
            for key in kwargs:
                n = parameters.index(key) - skip if key in parameters else -1
                if (name, n) not in ALLOWED:
                    kwargs[key] = self.convert(kwargs[key])
            self.depth += 1
            try:
                return f(*args, **kwargs)
            finally:
                self.depth -= 1

        return wrapper

    def install(self, modules):
        for module in modules:
            short = module.__name__.split('.', 1)[-1]
            for key, value in list(vars(module).items()):
                if isinstance(value, types.FunctionType) \
                        and value.__module__ == module.__name__:
                    new = self.wrap(value, '%s.%s' % (short, key), False)
                    setattr(module, key, new)
                elif isinstance(value, type) \
                        and value.__module__ == module.__name__ \
                        and not issubclass(value, (np.ndarray, Exception)):
                    for k, v in list(vars(value).items()):
                        if isinstance(v, types.FunctionType):
                            setattr(value, k, self.wrap(v, '%s.%s.%s'
                                % (short, key, k), True))

layout = Layout()
layout.install(MODULES)

common.PASSIVE = True

USED = ['c03', 'c04', 'c06', 'c08', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16',
    'c17', 'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c25', 'c27']

checks = {name: importlib.import_module('checks.' + name).check
    for name in USED}

common.PASSIVE = False

def run(which, family, params, change):
    layout.depth = layout.calls = 0
    layout.change = change
    try:
        checks[which].families[family](common.Context(), **params)
    except Timeout:
        raise
    except BaseException as e:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        return '%s: %s' % (type(e).__name__, str(e)[:300])
    finally:
        layout.change = None

@check.family
def calls(ctx, which, family, params, kind):
    error = run(which, family, params, LAYOUTS[kind])
    count = layout.calls
    if error and not run(which, family, params, None):
        raise Violation('only with arrays in %s layout: %s' % (kind, error))
    ctx.states += 1
    ctx.transitions += count
    ctx.outcome((which, family, params, kind, count), count > 0)

@check.cases
def enumerate_cases(tier):
    for which in USED:
        other = checks[which]
        for enumerator in other.enumerators:
            for n, (family, params) in enumerate(enumerator('quick')):
                for m, kind in enumerate(LAYOUTS):
                    if tier == 'quick' and n % 3 != m:
                        continue
                    yield 'calls', dict(which=which, family=family,
                        params=params, kind=kind)

check.main()
