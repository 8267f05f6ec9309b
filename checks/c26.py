"""C26: calls neither change their arguments nor leave traces."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import importlib, os, pickle, pkgutil, shutil
import numpy as np

from mc import common, parallel, scenarios
from mc.common import Check, Timeout, Violation, require
from mc.monitor import Monitor

for _, name, _ in pkgutil.walk_packages(elphmod.__path__, 'elphmod.'):
    if not name.endswith('__main__'):
        try:
            importlib.import_module(name)
        except ImportError:
            pass # optional dependencies

MODULES = [module for name, module in sorted(sys.modules.items())
    if name.startswith('elphmod')]

elphmod.misc.verbosity = 0

check = Check('C26', 'model_checking',
    rule='all cases of the listed checks, every call from outside the package '
    'monitored; all ordered pairs of calculations in one process; trivial: '
    'calls without mutable arguments')

# modified by contract: models to be set up, image to draw on, ...
# (position rather than name of argument)
ALLOWED = {
    ('el.k2r', 0), ('ph.q2r', 0), ('elph.q2r', 0), ('elel.q2r', 0),
    ('bravais.complete', 0), ('plot.colorbar', 0), ('ph.asr', 0),
    ('ph.zasr', 0), ('ph.sum_rule_correction', 0),
    }

monitor = Monitor(ALLOWED)
monitor.install(elphmod, MODULES)

common.PASSIVE = True

LIGHT = ['c03', 'c04', 'c06', 'c10', 'c11', 'c12', 'c13', 'c15', 'c16', 'c17',
    'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c25']
OTHER = ['c05', 'c07', 'c08', 'c14', 'c18']

USED = LIGHT + ['c07', 'c08', 'c14', 'c18'] if env.TIER == 'quick' else LIGHT + OTHER

ONLY = dict(c18=['folding', 'output', 'excited']) if env.TIER == 'quick' else {}

checks = {name: importlib.import_module('checks.' + name).check
    for name in USED}

common.PASSIVE = False

def state():
    """Variables of modules and libraries."""

    out = {}
    for module in MODULES:
        for key, value in vars(module).items():
            if key.startswith('_') or key in ('verbosity', 'comm', 'I'):
                continue
            if isinstance(value, (np.ndarray, list, dict, set, int, float, str,
                    tuple)):
                out[module.__name__ + '.' + key] = monitor.snap(value)
    out['error state'] = np.geterr()
    out['print options'] = repr(np.get_printoptions())
    return out

@check.family
def calls(ctx, which, family, params):
    other = checks[which]
    monitor.reset()
    before = state()
    monitor.on = True
    failed = False
    try:
        other.families[family](common.Context(), **params)
    except Timeout:
        raise
    except BaseException as e:
        failed = True # reported by other check
        if os.environ.get('VERIF_DEBUG'):
            raise
    finally:
        monitor.on = False
    ctx.add('calls', monitor.calls)
    if failed:
        ctx.add('cases that fail otherwise')
    if monitor.changes:
        raise Violation('; '.join(sorted(set(monitor.changes))))
    after = state()
    if not failed:
        for key in before:
            require(before[key] == after.get(key), '%s has changed', key)
    ctx.states += 1
    ctx.transitions += monitor.calls
    ctx.outcome((which, family, params, monitor.calls), monitor.calls > 0)

def execute(name, options):
    folder = env.scratch('run')
    cwd = os.getcwd()
    try:
        os.chdir(folder)
        return scenarios.SCENARIOS[name](elphmod, 0,
            lambda x: os.path.join(folder, x), **options)
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder, ignore_errors=True)

def isolated(f, *args):
    """Evaluate function in new process."""

    ours, theirs = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(ours)
            with os.fdopen(theirs, 'wb') as pipe:
                try:
                    out = 'done', f(*args)
                except BaseException as e:
                    out = 'raised', repr(e)
                pickle.dump(out, pipe)
        finally:
            os._exit(0)
    os.close(theirs)
    with os.fdopen(ours, 'rb') as pipe:
        data = pipe.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)

def chain(first, others, references):
    """Do calculation and compare all others done afterwards."""

    before = state()
    execute(*first)
    after = state()
    for key in before:
        if before[key] != after.get(key):
            return '%s has changed' % key
    count = 0
    for other in others:
        pair = isolated(execute, *other)
        count += 1
        want = references[repr(other)]
        if pair[0] != want[0]:
            return '%s %s' % pair
        d = pair[0] == 'done' and parallel.differ(pair[1], want[1])
        if d:
            return '%s after %s: %s' % (other, first, d)
    # repeat first calculation in same process:
    d = parallel.differ(execute(*first), references[repr(first)][1])
    return '%s repeated: %s' % (first, d) if d else count

def representatives(number):
    out = []
    for name, f in scenarios.SCENARIOS.items():
        n = len(f.options)
        for i in sorted({i * (n - 1) // max(number - 1, 1)
                for i in range(number)}):
            out.append((name, f.options[i]))
    return out

references = {}

@check.family
def history(ctx, first, number):
    first = first[0], first[1]
    others = representatives(number)
    for other in others + [first]:
        if repr(other) not in references:
            references[repr(other)] = isolated(execute, *other)
    if references[repr(first)][0] != 'done':
        ctx.add('cases that fail otherwise')
        return
    result, out = isolated(chain, first, others, references)
    require(result == 'done', '%s', out)
    require(not isinstance(out, str), '%s', out)
    ctx.states += out
    ctx.transitions += 2 * out
    ctx.outcome((first, out), True)

@check.cases
def enumerate_cases(tier):
    number = 2 if tier == 'quick' else 4
    for first in representatives(number):
        yield 'history', dict(first=first, number=number)

    for which in USED:
        other = checks[which]
        for enumerator in other.enumerators:
            for family, params in enumerator('quick'):
                if family not in ONLY.get(which, [family]):
                    continue
                yield 'calls', dict(which=which, family=family, params=params)

check.main()
