"""Case enumeration, parallel execution, evidence and verdicts.

A check module builds a `Check`, registers case functions with `@check.family`
and enumerators with `@check.cases`, and calls `check.main()`.  A case is
identified by its family and JSON-able parameters; it is rebuilt from these
alone, so that every violation is replayable.
"""

from mc import env

import hashlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import time
import traceback

import numpy as np

class Violation(Exception):
    """Property violated."""

class Timeout(BaseException):
    pass

def require(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)

def maxdev(a, b):
    a = np.asarray(a)
    b = np.asarray(b)

    if a.shape != b.shape:
        return np.inf

    if not a.size:
        return 0.0

    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        same = np.array_equal(a, b, equal_nan=False)
        return 0.0 if same else np.inf

    return float(abs(a - b).max())

def close(a, b, what, tol=1e-8, rel=1e-8):
    """Require that two arrays agree."""

    a = np.asarray(a)
    b = np.asarray(b)

    require(a.shape == b.shape, '%s: shape %s instead of %s'
        % (what, a.shape, b.shape))

    if not a.size:
        return

    scale = float(abs(b).max()) if np.all(np.isfinite(b)) else 0.0
    dev = maxdev(a, b)

    if not dev <= tol + rel * scale:
        raise Violation('%s: deviates by %.3g (tolerance %.3g)\n  got      %s\n'
            '  expected %s' % (what, dev, tol + rel * scale,
            short(a), short(b)))

def short(a, n=24):
    a = np.asarray(a)
    f = a.ravel()[:n]
    return '%s%s %s' % (a.dtype, a.shape, ' '.join(repr(complex(x))
        if np.iscomplexobj(a) else repr(x.item()) for x in f))

def equal(a, b, what):
    require(a == b, '%s: got %r, expected %r' % (what, a, b))

def _plain(x, digits):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            return (x.shape, (np.round(x, digits) + 0.0).tolist())
        return (x.shape, x.tolist())
    if isinstance(x, (list, tuple)):
        return [_plain(y, digits) for y in x]
    if isinstance(x, dict):
        return sorted((str(k), _plain(v, digits)) for k, v in x.items())
    if isinstance(x, (float, np.floating)):
        return round(float(x), digits) + 0.0
    if isinstance(x, (complex, np.complexfloating)):
        return (round(x.real, digits) + 0.0, round(x.imag, digits) + 0.0)
    return x

def digest(x, digits=6):
    return hashlib.sha1(repr(_plain(x, digits)).encode()).hexdigest()[:16]

PASSIVE = False # import checks without running them?

class Context:
    """What a case reports back."""

    def __init__(self):
        self.outcomes = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}

    def outcome(self, value, nontrivial=True):
        self.outcomes.append((digest(value), bool(nontrivial)))

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

class quiet:
    """Suppress standard output of the code under test."""

    def __enter__(self):
        self.stdout = sys.stdout
        sys.stdout = self.buffer = io.StringIO()
        return self.buffer

    def __exit__(self, *args):
        sys.stdout = self.stdout

class Check:
    def __init__(self, prop, level, rule, assumptions=(), timeout=120,
            processes=None):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.families = {}
        self.enumerators = []
        self.timeout = timeout
        self.exhaustive = True
        self.processes = processes or min(8, os.cpu_count() or 1)
        self.known = self._known()

    def family(self, f):
        self.families[f.__name__] = f
        return f

    def cases(self, f):
        self.enumerators.append(f)
        return f

    def _known(self):
        """Read list of known findings: `known: property=ID case=KEY text`."""

        known = {}
        path = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')

        if os.path.exists(path):
            with open(path) as lines:
                for line in lines:
                    if line.startswith('known: property=%s ' % self.prop):
                        words = line.split(None, 3)
                        known[words[2].split('=', 1)[1]] = words[3].strip()

        return known

    @staticmethod
    def key(name, params):
        return name + ':' + json.dumps(params, sort_keys=True,
            separators=(',', ':'))

    def _run_case(self, case):
        name, params = case
        ctx = Context()
        error = None

        def alarm(*args):
            raise Timeout

        limit = params.get('timeout', self.timeout)
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(limit)

        np.random.seed(env.SEED)

        try:
            folder = os.path.join(env.SCRATCH, 'worker-%d' % os.getpid())
            shutil.rmtree(folder, ignore_errors=True) # of previous case
            os.makedirs(folder)
            os.chdir(folder)

            with quiet():
                self.families[name](ctx, **params)

        except Timeout:
            error = 'did not terminate within %d s' % limit
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except Violation as e:
            error = str(e)
        except BaseException as e: # including SystemExit from error messages
            error = 'raised %s: %s\n%s' % (type(e).__name__, e,
                traceback.format_exc(limit=-6))
        finally:
            signal.alarm(0)

        return (case, error, ctx.outcomes, ctx.states, ctx.transitions,
            ctx.traces, ctx.extra)

    def main(self):
        if PASSIVE:
            return

        start = time.time()

        if '--replay' in sys.argv:
            with open(sys.argv[sys.argv.index('--replay') + 1]) as data:
                replay = json.load(data)

            result = self._run_case((replay['family'], replay['params']))

            if result[1]:
                print('reproduced: %s' % result[1])
                print('VIOLATION property=%s replay=%s' % (self.prop,
                    sys.argv[sys.argv.index('--replay') + 1]))
                sys.exit(1)

            print('not reproduced')
            sys.exit(0)

        tier = env.TIER

        try:
            cases = [case for enumerate_cases in self.enumerators
                for case in enumerate_cases(tier)]
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            # the enumerators themselves call the code under test
            traceback.print_exc()
            self._violation(('enumeration', {}), 'raised %s: %s'
                % (type(e).__name__, e), 0)
            self._evidence(start, tier, [], 1)
            sys.exit(1)

        # different loops may name the same case:
        cases = list({self.key(*case): case for case in cases}.values())

        if '--list' in sys.argv:
            for case in cases:
                print(self.key(*case))
            return

        if '--only' in sys.argv:
            pattern = sys.argv[sys.argv.index('--only') + 1]
            cases = [case for case in cases if pattern in self.key(*case)]

        results = self._run_all(cases, start)

        failures = 0

        for result in results:
            case, error = result[:2]

            if error is None:
                continue

            key = self.key(*case)

            if key in self.known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop,
                    self.known[key]))
                continue

            failures += 1

            if failures <= 10:
                self._violation(case, error, failures)

        self._evidence(start, tier, results, failures)

        print('property=%s tier=%s cases=%d failures=%d wall=%.1fs'
            % (self.prop, tier, len(results), failures, time.time() - start))

        sys.exit(1 if failures else 0)

    def _run_all(self, cases, start):
        """Run all cases in parallel; give up early once clearly violated."""

        if self.processes == 1 or '--serial' in sys.argv:
            return [self._run_case(case) for case in cases]

        fork = multiprocessing.get_context('fork')
        results = {}
        failures = 0
        wall = 780 if env.TIER == 'quick' else 1e9
        stall = 2 * self.timeout + 60

        size = max(1, min(64, len(cases) // (self.processes * 8)))
        items = list(enumerate(cases))

        # long-running cases come first and one by one
        chunks = [[item] for item in items if 'timeout' in item[1][1]]
        items = [item for item in items if 'timeout' not in item[1][1]]
        chunks += [items[n:n + size] for n in range(0, len(items), size)]

        with fork.Pool(self.processes) as pool:
            results_iter = pool.imap_unordered(self._chunk, chunks)

            for _ in chunks:
                try:
                    done = results_iter.next(timeout=max(1,
                        min(stall * size, wall - (time.time() - start))))
                except multiprocessing.TimeoutError:
                    self.exhaustive = False

                    if time.time() - start < wall:
                        i = min(set(range(len(cases))) - set(results))
                        results[i] = (cases[i], 'no progress: a worker hangs '
                            'or has been killed', [], 0, 0, 0, {})
                        break

                    print('time limit: %d of %d cases completed'
                        % (len(results), len(cases)))
                    break

                for i, result in done:
                    results[i] = result

                    if result[1] is not None \
                            and self.key(*result[0]) not in self.known:
                        failures += 1

                        if result[1].startswith('did not'):
                            failures += 12

                if failures >= 12:
                    self.exhaustive = False
                    break

            pool.terminate()

        return [results[i] for i in sorted(results)]

    def _chunk(self, items):
        results = []

        for i, case in items:
            results.append((i, self._run_case(case)))

            if (results[-1][1][1] or '').startswith('did not'):
                break

        return results

    def _violation(self, case, error, n):
        folder = os.path.join(env.VERIF, 'replays')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, '%s-%d.json' % (self.prop, n))

        with open(path, 'w') as data:
            json.dump(dict(property=self.prop, family=case[0],
                params=case[1], error=error, replay_cmd='/opt/venv/bin/python '
                '/verif/checks/%s.py --replay %s'
                % (self.prop.lower(), path)), data, indent=1)

        print('-- %s' % self.key(*case))
        print('   %s' % error.replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()

    def _evidence(self, start, tier, results, failures):
        outcomes = set()
        evaluations = 0
        states = transitions = traces = 0
        extra = {}
        per_family = {}
        samples = {}

        for case, error, outs, s, t, tr, ex in results:
            name = case[0]
            per_family[name] = per_family.get(name, 0) + 1

            for out, nontrivial in outs:
                evaluations += 1

                if nontrivial:
                    outcomes.add((name, out))

            states += s
            transitions += t
            traces += tr

            for k, v in ex.items():
                extra[k] = extra.get(k, 0) + v

            # middle cases are more telling than first ones
            samples.setdefault(name, []).append(case[1])

        coverage = dict(
            evaluations=max(len(results), evaluations),
            distinct_nontrivial=len(outcomes),
            rule=self.rule,
            samples=[dict(family=name, params=params[len(params) // 2])
                for name, params in samples.items()],
            cases_per_family=per_family,
            exhaustive=bool(self.exhaustive),
            )

        if self.level == 'model_checking' or states:
            coverage.update(states=states, transitions=transitions,
                traces_validated_against_impl=traces)

        if extra:
            coverage['counters'] = extra

        os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)

        with open(os.path.join(env.VERIF, 'evidence',
                '%s.json' % self.prop), 'w') as data:
            json.dump(dict(
                property=self.prop,
                tier=tier if tier in ('quick', 'thorough') else 'quick',
                seed=env.SEED,
                level=self.level,
                coverage=coverage,
                assumptions=self.assumptions,
                wall_s=round(time.time() - start, 3),
                violations=failures,
                ), data, indent=1)
