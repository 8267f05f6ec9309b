"""Comparison of parallel with serial executions of scenarios."""

from mc import env, simmpi
from mc.common import Violation

import itertools
import os
import shutil

import numpy as np

TOL = 1e-8

def differ(a, b, where='result'):
    """Return description of first difference or `None`."""

    if a is None or b is None:
        return None if a is b else '%s: %s instead of %s' % (where,
            'None' if a is None else 'data', 'None' if b is None else 'data')

    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(repr, a)) != sorted(map(repr, b)):
            return '%s: keys %s instead of %s' % (where, sorted(map(repr, a)),
                sorted(map(repr, b)))
        for key in a:
            d = differ(a[key], b[key], '%s[%r]' % (where, key))
            if d:
                return d
        return None

    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d instead of %d' % (where, len(a), len(b))
        for n, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (where, n))
            if d:
                return d
        return None

    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return None if a == b else '%s: %.200r instead of %.200r' % (where, a,
            b)

    a = np.asarray(a)
    b = np.asarray(b)

    if a.shape != b.shape:
        return '%s: shape %s instead of %s' % (where, a.shape, b.shape)

    if a.dtype.kind not in 'biufc' or b.dtype.kind not in 'biufc':
        return None if a.tolist() == b.tolist() else '%s: %s instead of %s' % (
            where, a.tolist(), b.tolist())

    if not a.size:
        return None

    if (a.dtype.kind == 'c') != (b.dtype.kind == 'c'):
        return '%s: type %s instead of %s' % (where, a.dtype, b.dtype)

    a = a.astype(complex)
    b = b.astype(complex)
    good = np.isfinite(b)

    if not np.array_equal(np.isfinite(a), good):
        return '%s: finite elements differ' % where

    if not good.any():
        return None

    dev = abs(a[good] - b[good]).max()

    if not dev <= TOL * max(1.0, abs(b[good]).max()):
        n = np.argmax(abs(np.where(good, a - b, 0)).ravel())
        return '%s: deviates by %.3g (element %d: %s instead of %s)' % (where,
            dev, n, a.ravel()[n], b.ravel()[n])

    return None

def body(name, options, folder):
    """Return function to be executed by all ranks."""

    from mc import scenarios

    f = scenarios.SCENARIOS[name]

    def run(e, rank):
        e.misc.verbosity = 0
        return f(e, rank, lambda x: os.path.join(folder[0], x), **options)

    return run

def once(size, name, options, **kw):
    """Execute one schedule."""

    folder = [env.scratch('run')]

    try:
        return simmpi.universe(size).run(body(name, options, folder),
            kw.pop('policy', None) or simmpi.Policy(range(size)), **kw)
    finally:
        shutil.rmtree(folder[0], ignore_errors=True)

def reference(name, options):
    return once(1, name, options)[0]

def compare(results, want):
    for rank, result in enumerate(results):
        if result is None and rank:
            continue # no result promised on this rank

        d = differ(result, want)

        if d:
            return 'rank %d of %d: %s' % (rank, len(results), d)

def partitions(size):
    """All distributions of ranks onto nodes."""

    def grow(prefix, n):
        if len(prefix) == size:
            yield list(prefix)
            return
        for x in range(n + 1):
            yield from grow(prefix + [x], max(n, x + 1))

    yield from grow([0], 1)
