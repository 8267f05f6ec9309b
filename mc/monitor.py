"""Monitor of all calls into the package: are arguments left as they were?

All functions and methods of the package are replaced by wrappers that record
the content of all mutable arguments (arrays, lists, dictionaries, models) of
calls from outside the package and compare it afterwards.  Arrays handed to the
package earlier in the same case are watched, too, while methods of objects are
executed, which may have kept a reference.
"""

import functools
import hashlib
import inspect
import types

import numpy as np

LIMIT = 4000000 # bytes

class Monitor:
    def __init__(self, allowed):
        self.allowed = allowed # (function, position) modified by contract
        self.depth = 0
        self.calls = 0
        self.changes = []
        self.watched = {}
        self.on = False

    def reset(self):
        self.depth = 0
        self.calls = 0
        self.changes = []
        self.watched = {}

    # content of arguments

    def snap(self, x, depth=0, seen=None):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return [self.snap(y, depth + 1, seen) for y in x.flat]
            if x.nbytes > LIMIT:
                return x.shape
            return (x.shape, x.dtype.str,
                hashlib.blake2b(x.tobytes()).digest() if x.nbytes > 256
                else x.tobytes())
        if x is None or isinstance(x, (bool, int, float, complex, str, bytes,
                np.generic)):
            # mind NaN and signed zero
            return type(x).__name__, repr(x)
        if depth > 6:
            return
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [self.snap(y, depth + 1, seen)
                for y in x]
        if isinstance(x, (set, frozenset)):
            return sorted(map(repr, x))
        if isinstance(x, dict):
            return [(repr(k), self.snap(v, depth + 1, seen))
                for k, v in x.items()]
        if (type(x).__module__ or '').startswith('elphmod'):
            seen = set() if seen is None else seen
            if id(x) in seen:
                return 'again'
            seen.add(id(x))
            return [(k, self.snap(v, depth + 1, seen)) for k, v in
                sorted(getattr(x, '__dict__', {}).items())
                if k not in CACHES and not k.startswith('_')]

    @staticmethod
    def mutable(x):
        return isinstance(x, (np.ndarray, list, dict, set)) \
            or isinstance(x, tuple) and any(map(Monitor.mutable, x)) \
            or not isinstance(x, (types.FunctionType, types.MethodType, type,
                types.ModuleType)) and (type(x).__module__ or '').startswith(
                'elphmod')

    def arrays(self, x):
        """Remember arrays that may be kept by an object."""

        if isinstance(x, np.ndarray) and 0 < x.nbytes <= LIMIT:
            if len(self.watched) < 40:
                self.watched[id(x)] = x
        elif isinstance(x, (list, tuple)):
            for y in x[:8]:
                self.arrays(y)

    # wrapping

    def wrap(self, f, name, method):
        try:
            parameters = list(inspect.signature(f).parameters)
        except (TypeError, ValueError):
            return f

        skip = 1 if method else 0

        @functools.wraps(f)
        def wrapper(*args, **kwargs):
            if self.depth or not self.on:
                return f(*args, **kwargs)

            self.calls += 1

            items = []
            for n, x in enumerate(args[skip:]):
                if self.mutable(x):
                    items.append((n, x))
            for label, x in kwargs.items():
                if self.mutable(x):
                    items.append((parameters.index(label) - skip
                        if label in parameters else label, x))

            before = [self.snap(x) for label, x in items]

            late = list(self.watched.values()) if method else []
            earlier = [self.snap(x) for x in late]

            self.depth += 1
            try:
                out = f(*args, **kwargs)
            finally:
                self.depth -= 1

            for (label, x), b in zip(items, before):
                if (name, label) not in self.allowed and self.snap(x) != b:
                    self.changes.append('%s modifies argument %s'
                        % (name, parameters[label + skip] if isinstance(label,
                        int) and label + skip < len(parameters) else label))
            for x, b in zip(late, earlier):
                if not any(x is y for _, y in items) \
                        and self.snap(x) != b:
                    if (name, '*') not in self.allowed:
                        self.changes.append('%s modifies array passed earlier'
                            % name)
                    self.watched.pop(id(x), None)

            for label, x in items:
                if method and (name, label) not in self.allowed:
                    self.arrays(x)

            return out

        wrapper.__wrapped_by_monitor__ = True

        return wrapper

    def install(self, package, modules):
        for module in modules:
            short = module.__name__.split('.', 1)[-1]
            for key, value in list(vars(module).items()):
                if isinstance(value, types.FunctionType) \
                        and value.__module__ == module.__name__:
                    setattr(module, key, self.wrap(value,
                        '%s.%s' % (short, key), False))
                elif isinstance(value, type) \
                        and value.__module__ == module.__name__ \
                        and not issubclass(value, (np.ndarray, Exception)):
                    for k, v in list(vars(value).items()):
                        if isinstance(v, types.FunctionType):
                            setattr(value, k, self.wrap(v, '%s.%s.%s'
                                % (short, key, k), True))

# attributes that hold results of last evaluation:

CACHES = {'gq', 'q', 'node', 'images', 'comm'}
