"""Core of the property-based checking framework: sub-check registry, verdicts, case statistics.

A property module (props/cNN.py) declares sub-checks:

    @check('name', strategy_factory, quick=300, thorough=5000)
    def body(value, cx): ...

`strategy_factory()` returns a Hypothesis strategy of *literal* values (everything a case needs, including
whole operation histories, is one such value, so it shrinks as one value and can be written to a replay file).
`body` drives the real marcel code and raises Violation (via cx.fail / cx.eq) when the oracle disagrees.
`cx` collects statistics: cx.nontrivial() marks the case as non-trivial, cx.label(x) classifies it.
"""
import hashlib


class Violation(AssertionError):
    pass


class Known(Exception):
    """The case reproduces a listed known finding."""
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class Check(object):

    def __init__(self, name, strategy, body, quick, thorough, rule, shards, timeout, setup, pre=None, prefer=None):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.timeout = timeout
        self.setup = setup
        self.pre = pre or []


REGISTRY = []


def check(name, strategy, quick=200, thorough=None, rule='', shards=None, timeout=60, setup=None, pre=None):
    """quick/thorough: number of generated cases (total, over all shards).
    shards: (quick, thorough) number of worker processes.
    pre: literal cases that are always run first (regression tier)."""
    def decorator(f):
        REGISTRY.append(Check(name, strategy, f, quick, thorough or quick * 12, rule, shards or (1, 6), timeout,
                              setup, pre))
        return f
    return decorator


class Context(object):
    """Per-worker statistics + per-case verdict helpers."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.excluded = {}
        self._value = None
        self._nontrivial = False

    def begin(self, value):
        self.evaluations += 1
        self._value = value
        self._nontrivial = False

    def end(self):
        if self._nontrivial:
            r = repr(self._value)
            h = hashlib.blake2b(r.encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest()
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                n = len(self.nontrivial_hashes)
                if n & (n - 1) == 0 and len(self.samples) < 12:
                    self.samples.append(r if len(r) < 1500 else r[:1500] + '...')

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def label(self, x):
        self.labels[x] = self.labels.get(x, 0) + 1

    def exclude(self, why):
        """A part of a generated case that is skipped because of a listed known finding."""
        self.excluded[why] = self.excluded.get(why, 0) + 1

    @staticmethod
    def fail(message):
        raise Violation(message)

    @staticmethod
    def eq(actual, expected, what='result'):
        if not same(actual, expected):
            raise Violation(f'{what}: expected {short(expected)}, got {short(actual)}')

    @staticmethod
    def true(cond, message):
        if not cond:
            raise Violation(message)


def short(x, n=1200):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


def same(a, b):
    """Equality that is strict about types (1 vs 1.0 vs True, tuple vs list) and treats nan == nan."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b
