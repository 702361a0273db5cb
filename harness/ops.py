"""Stream operators: literal specifications, rendering in the marcel language and through marcel.api, and an
independent reference model.

A *spec* is a nested literal. A pipeline is (rows, [op, ...]): rows is the list of values emitted by its source.
The model works on lists of events: a tuple/list (an item) or an Err (an error travelling downstream).
"""
import hypothesis.strategies as st

from harness.core import Violation, same, short

# Functions: name -> source. Every one accepts any number of arguments, and fails only where the name says so.
FN = {
    'id': '*x: x',
    'len': '*x: len(x)',
    'dup': '*x: x + x',
    'rev': '*x: x[::-1]',
    'tolist': '*x: list(x)',
    'nest': '*x: (len(x), list(x), 7)',
    'nestt': '*x: (x,)',
    'pair': '*x: (len(x), repr(x))',
    'first': '*x: x[0] if x else 0',
    'none': '*x: None',
    'repr': '*x: repr(x)',
    'keyed': '*x: (len(repr(x)) % 4, *x)',
    'dict': "*x: {'n': len(x), 'v': x}",
    'pos': '*x: (pos(), *x)',
    # Functions which fail on some inputs
    'fail3': '*x: (1 / (len(repr(x)) % 3), *x)',
    'failpos': '*x: (1 / (pos() % 3), *x)',
    'failint': "*x: (x[0] + 1, *x)",
}
PRED = {
    'true': '*x: True',
    'false': '*x: False',
    'even': '*x: len(repr(x)) % 2 == 0',
    'third': "*x: sum([ord(c) for c in repr(x)]) % 3 == 0",
    'wide': '*x: len(x) > 1',
    'truthy': '*x: x[0] if x else None',
    'pos': '*x: pos() % 2 == 0',
    'str': '*x: any([type(v) is str for v in x])',
    'fail3': '*x: 1 / (len(repr(x)) % 3) > 0.6',
    'failint': '*x: x[0] > 3',
}
KEY = {
    'repr': '*x: repr(x)',
    'len': '*x: len(x)',
    'const': '*x: 0',
    'mod': "*x: sum([ord(c) for c in repr(x)]) % 3",
    'neg': '*x: [-len(repr(x)), repr(x)]',
    'fail3': '*x: (1 / (len(repr(x)) % 3), repr(x))',
    'failint': '*x: x[0] % 5',
}
# Reductions: name -> (source for the language or None if it is the symbol itself, model)
RED = {
    '+': lambda a, x: a + x,
    '*': lambda a, x: a * x,
    'max': lambda a, x: x if x > a else a,
    'min': lambda a, x: x if x < a else a,
    '&': lambda a, x: a & x,
    '|': lambda a, x: a | x,
    '^': lambda a, x: a ^ x,
    'and': lambda a, x: x if a else a,
    'or': lambda a, x: a if a else x,
}
REDF = {
    'last': 'a, x: x',
    'join': "a, x: repr(x) if a is None else a + repr(x)",
    'sub': 'a, x: x if a is None else a - x',
}
API_RED = {'+': 'r_plus', '*': 'r_times', 'max': 'r_max', 'min': 'r_min', '&': 'r_bit_and', '|': 'r_bit_or',
           '^': 'r_xor', 'and': 'r_and', 'or': 'r_or', 'count': 'r_count', 'concat': 'r_concat', '.': None}

CURRENT_POS = [0]


def _pos():
    return CURRENT_POS[0]


_COMPILED = {}


def fn(source):
    """The model's own compiled version of a function."""
    f = _COMPILED.get(source)
    if f is None:
        f = eval('lambda ' + source, {'pos': _pos})
        _COMPILED[source] = f
    return f


class ModelKill(Exception):
    """The model predicts that the command is terminated by an error."""


class _Fail(Exception):

    def __init__(self, input=None):
        super().__init__(input)
        self.input = input


class Err(object):

    def __init__(self, op, input):
        self.op = op
        self.input = input

    def __repr__(self):
        return f'Err({self.op}, {self.input})'

    def matches(self, error):
        message = error[1]
        return (message.startswith(f'Running {self.op}(') and
                (self.input is None or f' on {self.input}:' in message))


def wrap(x):
    return x if type(x) in (tuple, list) else (x,)


def unwrap(x):
    return x[0] if len(x) == 1 else x


# ---------------------------------------------------------------------------------------------------------------------
# Model

def model(pipeline):
    """Events emitted by the pipeline."""
    rows, ops = pipeline
    return apply_ops([wrap(r) for r in rows], ops)


def apply_ops(events, ops):
    for op in ops:
        events = apply(events, op)
    return events


def mcall(f, *args):
    try:
        return f(*args)
    except Exception:
        raise _Fail(str(args) if args else None)


def per_tuple(events, opname, f):
    """f(pos, x) -> list of items. A failure becomes an error in place."""
    out = []
    pos = -1
    for x in events:
        if isinstance(x, Err):
            out.append(x)
        else:
            pos += 1
            CURRENT_POS[0] = pos
            try:
                out.extend([wrap(y) for y in f(x)])
            except _Fail as e:
                out.append(Err(opname, e.input))
    return out


def buffered(events, f):
    """Errors pass at once, f(items) -> items at the end of the stream."""
    errors = [x for x in events if isinstance(x, Err)]
    items = [x for x in events if not isinstance(x, Err)]
    return errors + [wrap(y) for y in f(items)]


def streaming(events, f, end=lambda: []):
    """f(x) -> list of items."""
    out = []
    for x in events:
        if isinstance(x, Err):
            out.append(x)
        else:
            out.extend([wrap(y) for y in f(x)])
    out.extend([wrap(y) for y in end()])
    return out


def apply(events, op):
    name = op[0]
    return globals()['m_' + name](events, *op[1:])


def m_head(events, n):
    count = [0]

    def f(x):
        count[0] += 1
        keep = count[0] <= n if n > 0 else count[0] > -n
        return [x] if keep else []
    if n == 0:
        raise ModelKill('head 0')
    return streaming(events, f)


def m_tail(events, n):
    if n == 0:
        raise ModelKill('tail 0')
    if n > 0:
        return buffered(events, lambda items: items[-n:])
    # All but the last -n. Tuples are passed on as soon as they are known not to be among the last.
    queue = []

    def f(x):
        queue.append(x)
        return [queue.pop(0)] if len(queue) > -n else []
    return streaming(events, f)


def m_reverse(events):
    return buffered(events, lambda items: items[::-1])


def m_sort(events, key):
    failed = []

    def f(items):
        try:
            if key is None:
                return sorted(items)
            keyed = []
            for x in items:
                try:
                    keyed.append((mcall(fn(KEY[key]), *x), x))
                except _Fail as e:
                    failed.append(Err('sort', e.input))
            return [x for _, x in sorted(keyed, key=lambda k: k[0])]
        except TypeError:
            raise ModelKill('sort')
    out = buffered(events, f)
    n = len([x for x in events if isinstance(x, Err)])
    return out[:n] + failed + out[n:]


def m_unique(events, consecutive):
    seen = []

    def f(x):
        if consecutive:
            if seen and seen[-1] == x:
                return []
        else:
            x = tuple(x)
            try:
                hash(x)
            except TypeError:
                raise ModelKill('unique')
            if x in seen:
                return []
        seen.append(x)
        return [x]
    return streaming(events, f)


def m_window(events, kind, arg):
    group = []
    if kind == 'p':
        predicate = fn(PRED[arg])
        out = []
        pos = -1
        for x in events:
            if isinstance(x, Err):
                out.append(x)
                continue
            pos += 1
            CURRENT_POS[0] = pos
            try:
                start = mcall(predicate, *x)
            except _Fail as e:
                out.append(Err('window', e.input))
                continue
            if start and group:
                out.append(tuple(group))
                group = []
            group.append(unwrap(x))
        if group:
            out.append(tuple(group))
        return out
    if kind == 'd':
        def f(x):
            group.append(unwrap(x))
            if len(group) == arg:
                w = tuple(group)
                group.clear()
                return [w]
            return []

        def end():
            return [tuple(group) + (None,) * (arg - len(group))] if group else []
        return streaming(events, f, end)
    # Overlapping: each input begins a window, padded with None. Window i is complete when input i + arg - 1 arrives.
    items = []

    def f(x):
        items.append(unwrap(x))
        return [tuple(items[-arg:])] if len(items) >= arg else []

    def end():
        n = len(items)
        return [tuple(items[i:]) + (None,) * (arg - (n - i)) for i in range(max(0, n - arg + 1), n)]
    return streaming(events, f, end)


def m_map(events, name):
    f = fn(FN[name])
    return per_tuple(events, 'map', lambda x: [mcall(f, *x)])


def m_select(events, name):
    f = fn(PRED[name])
    return per_tuple(events, 'select', lambda x: [x] if mcall(f, *x) else [])


def m_expand(events, position):
    def elements(v):
        if type(v) in (tuple, list):
            return list(v)
        if type(v) is dict:
            return list(v.items())
        return None

    def f(x):
        if position is None:
            if len(x) == 1:
                e = elements(x[0])
                return list(x) if e is None else e
            return list(x)
        if position >= len(x):
            return [x]
        e = elements(x[position])
        if e is None:
            return [x]
        t = type(x)
        return [x[:position] + t((v,)) + x[position + 1:] for v in e]
    return streaming(events, f)


def fold(name, values):
    """Left-to-right reduction of non-empty values."""
    if name == 'count':
        return len(values)
    if name == 'concat':
        return list(values)
    if name in REDF:
        f = fn(REDF[name])
        acc = None
        for v in values:
            acc = f(acc, v)
        return acc
    acc = values[0]
    for v in values[1:]:
        # A reduction that is None so far has not begun
        acc = v if acc is None else RED[name](acc, v)
    return acc


def m_squish(events, name):
    def f(x):
        if len(x) == 0:
            return [None]
        try:
            return [fold(name or '+', list(x))]
        except Exception:
            raise _Fail()
    return per_tuple(events, 'squish', f)


def m_cast(events, types):
    import builtins

    def f(x):
        out = []
        for i, v in enumerate(x):
            if v is not None and i < len(types):
                v = mcall(getattr(builtins, types[i]), v)
            out.append(v)
        return [tuple(out)]
    return per_tuple(events, 'cast', f)


def m_red(events, incremental, functions):
    n = len(functions)
    grouping = [i for i in range(n) if functions[i] == '.']
    data = [i for i in range(n) if functions[i] != '.']
    groups = {}
    out = []

    def reduction(rows):
        return [rows[-1][i] if i in grouping else fold(functions[i], [r[i] for r in rows]) for i in range(n)]

    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        if len(x) < n:
            out.append(Err('red', str(x)))
            continue
        key = tuple(x[i] for i in grouping)
        try:
            rows = groups.get(key, [])
        except TypeError:
            out.append(Err('red', None))
            continue
        try:
            r = reduction(rows + [x])
        except Exception:
            out.append(Err('red', None))
            continue
        groups[key] = rows + [x]
        if incremental:
            out.append(tuple(x) + tuple(r[i] for i in data))
    if not incremental:
        if grouping:
            for rows in groups.values():
                out.append(tuple(reduction(rows)))
        elif groups:
            out.append(tuple(reduction(groups[()])))
        else:
            out.append(tuple(0 if f == 'count' else None for f in functions))
    return out


def items_of(events):
    return [x for x in events if not isinstance(x, Err)]


def m_union(events, subs):
    out = list(events)
    for sub in subs:
        out.extend(model(sub))
    return out


def hashable(x):
    try:
        hash(x)
    except TypeError:
        raise ModelKill('not hashable')
    return x


def m_intersect(events, subs):
    allowed = None
    out = []
    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        if allowed is None:
            counts = []
            for sub in subs:
                c = {}
                for y in items_of(model(sub)):
                    y = hashable(tuple(y))
                    c[y] = c.get(y, 0) + 1
                counts.append(c)
            allowed = {}
            for y in counts[0]:
                allowed[y] = min([c.get(y, 0) for c in counts])
        hashable(x)
        if allowed.get(x, 0) > 0:
            allowed[x] -= 1
            out.append(x)
    return out


def m_difference(events, sub):
    right = None
    out = []
    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        if right is None:
            right = {}
            for y in items_of(model(sub)):
                y = hashable(tuple(y))
                right[y] = right.get(y, 0) + 1
        hashable(x)
        if right.get(x, 0) > 0:
            right[x] -= 1
        else:
            out.append(x)
    return out


def m_filter(events, mode, compare, sub):
    right = None
    out = []
    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        if right is None:
            right = {hashable(tuple(y)) for y in items_of(model(sub))}
        try:
            key = x if compare is None else wrap(mcall(fn(FN[compare]), *x))
        except _Fail as e:
            out.append(Err('filter', e.input))
            continue
        if compare is None:
            key = tuple(key)
        hashable(key)
        if (key in right) == (mode != 'discard'):
            out.append(x)
    return out


def m_join(events, keep, sub):
    right = None
    out = []
    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        if right is None:
            right = [tuple(y) for y in items_of(model(sub)) if len(y) > 0]
            for y in right:
                hashable(y[0])
        if len(x) == 0:
            out.append(Err('join', '()'))
            continue
        hashable(x[0])
        x = tuple(x)
        matches = [y for y in right if y[0] == x[0]]
        for y in matches:
            out.append(x + y[1:])
        if keep and not matches:
            out.append(x)
    return out


def m_case(events, branches, default):
    """Branches that buffer emit at the end, in branch order. Branches that do not buffer emit at once."""
    out = []
    inputs = [[] for _ in branches] + [[]]
    bodies = [b[1] for b in branches] + [default]
    done = [0] * len(bodies)
    pos = -1
    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        pos += 1
        CURRENT_POS[0] = pos
        chosen = len(branches) if default is not None else None
        failed = False
        for i, (p, _) in enumerate(branches):
            try:
                CURRENT_POS[0] = pos
                if mcall(fn(PRED[p]), *x):
                    chosen = i
                    break
            except _Fail as e:
                out.append(Err('case', e.input))
                failed = True
                break
        if failed or chosen is None:
            continue
        inputs[chosen].append(x)
        if all(is_immediate(op) for op in bodies[chosen]):
            events_now = apply_ops(inputs[chosen], bodies[chosen])
            out.extend(events_now[done[chosen]:])
            done[chosen] = len(events_now)
    for i, body in enumerate(bodies):
        if body is not None and not all(is_immediate(op) for op in body):
            out.extend(apply_ops(inputs[i], body))
    return out


def m_args(events, all, n_params, body):
    out = []
    batch = []

    def run(values):
        return apply_ops(args_rows(values, body), body[1])

    for x in events:
        if isinstance(x, Err):
            out.append(x)
            continue
        batch.append(unwrap(x))
        if not all and len(batch) == n_params:
            out.extend(run(batch))
            batch = []
    if batch:
        if all:
            out.extend(run([batch]))
        else:
            out.extend(run(batch + [None] * (n_params - len(batch))))
    return out


def args_rows(values, body):
    count = body[0]
    return [wrap((i, *values)) for i in range(count)]


IMMEDIATE = {'head', 'map', 'select', 'expand', 'squish', 'cast', 'unique', 'difference', 'intersect', 'filter', 'join'}


def is_immediate(op):
    """Output depends on the inputs so far, and nothing is emitted at the end."""
    return op[0] in IMMEDIATE or (op[0] == 'red' and op[1])


def buffering_case(ops):
    """Errors of an operator that buffers, in a branch of case, are emitted at once, its tuples at the end."""
    return any([op[0] == 'case' and not all([is_immediate(o) for b in [b[1] for b in op[1]] + [op[2] or []] for o in b])
                for op in ops] +
               [op[0] == 'args' and buffering_case(op[3][1]) for op in ops])


ORDER_PRESERVING = {'map', 'select', 'expand', 'squish', 'cast'}


def bag_only(ops):
    """Does the documentation leave the order of the output open? (union, intersect, difference, grouping red)"""
    open_order = False
    for op in ops:
        if op[0] in ('union', 'intersect', 'difference') or (op[0] == 'red' and not op[1] and '.' in op[2]):
            open_order = True
        elif op[0] not in ORDER_PRESERVING:
            return False
    return open_order


# ---------------------------------------------------------------------------------------------------------------------
# Comparison

def compare(actual, expected, bag=False, what='', split=False):
    """actual: list of items and ('#error', message). expected: events."""
    def is_err(x):
        return type(x) is tuple and len(x) == 2 and x[0] == '#error'
    if bag:
        a = sorted([repr(x) for x in actual if not is_err(x)])
        e = sorted([repr(x) for x in expected if not isinstance(x, Err)])
        if a != e:
            raise Violation(f'{what}: expected (in any order) {short(expected)}, got {short(actual)}')
        actual = [x for x in actual if is_err(x)]
        expected = [x for x in expected if isinstance(x, Err)]
    if split:
        # The place of errors among the tuples is not determined
        actual = [x for x in actual if not is_err(x)] + sorted([x for x in actual if is_err(x)])
        errors = [x for x in expected if isinstance(x, Err)]
        expected = [x for x in expected if not isinstance(x, Err)]
        for a in actual[len(expected):]:
            e = sorted([e for e in errors if e.matches(a)], key=lambda e: e.input is None)[:1]
            if e:
                errors.remove(e[0])
                expected.append(e[0])
        expected.extend(errors)
    if len(actual) != len(expected):
        raise Violation(f'{what}: expected {len(expected)} items {short(expected)}, got {len(actual)}: {short(actual)}')
    for i, (a, e) in enumerate(zip(actual, expected)):
        ok = (is_err(a) and e.matches(a)) if isinstance(e, Err) else same(a, e)
        if not ok:
            raise Violation(f'{what}: item {i}: expected {short(e)}, got {short(a)}\n'
                            f'  expected {short(expected)}\n  got {short(actual)}')


# ---------------------------------------------------------------------------------------------------------------------
# Rendering in the marcel language

class Cli(object):

    def __init__(self, prefix='S'):
        self.vars = {}
        self.prefix = prefix

    def source(self, rows):
        if len(rows) == 0:
            return 'gen 1 | select (x: False)'
        var = f'{self.prefix}{len(self.vars)}'
        self.vars[var] = list(rows)
        return f'gen {len(rows)} | map (i: {var}[i])'

    def pipeline(self, pipeline):
        rows, ops = pipeline
        return ' | '.join([self.source(rows)] + [self.op(op) for op in ops])

    def ops(self, ops):
        return ' | '.join([self.op(op) for op in ops])

    def sub(self, pipeline):
        return f'(| {self.pipeline(pipeline)} |)'

    def op(self, op):
        return getattr(self, 'c_' + op[0])(*op[1:])

    def c_head(self, n): return f'head {n}' if n >= 0 else f'head ({n})'

    def c_tail(self, n): return f'tail {n}' if n >= 0 else f'tail ({n})'

    def c_reverse(self): return 'reverse'

    def c_sort(self, key): return 'sort' if key is None else f'sort ({KEY[key]})'

    def c_unique(self, c): return 'unique -c' if c else 'unique'

    def c_window(self, kind, arg): return f'window ({PRED[arg]})' if kind == 'p' else f'window -{kind} {arg}'

    def c_map(self, f): return f'map ({FN[f]})'

    def c_select(self, p): return f'select ({PRED[p]})'

    def c_expand(self, p): return 'expand' if p is None else f'expand {p}'

    def red_fn(self, f): return f'({REDF[f]})' if f in REDF else f

    def c_squish(self, f): return 'squish' if f is None else f'squish {self.red_fn(f)}'

    def c_cast(self, types): return 'cast ' + ' '.join(types)

    def c_red(self, i, functions):
        return 'red ' + ('-i ' if i else '') + ' '.join([self.red_fn(f) for f in functions])

    def c_union(self, subs): return 'union ' + ' '.join([self.sub(s) for s in subs])

    def c_intersect(self, subs): return 'intersect ' + ' '.join([self.sub(s) for s in subs])

    def c_difference(self, sub): return f'difference {self.sub(sub)}'

    def c_filter(self, mode, compare, sub):
        return ('filter ' + {'keep': '-k ', 'discard': '-d ', None: ''}[mode] +
                (f'-c ({FN[compare]}) ' if compare else '') + self.sub(sub))

    def c_join(self, keep, sub): return f'join {"-k " if keep else ""}{self.sub(sub)}'

    def c_case(self, branches, default):
        s = 'case'
        for p, ops in branches:
            s += f' ({PRED[p]}) (| {self.ops(ops)} |)'
        if default is not None:
            s += f' (| {self.ops(default)} |)'
        return s

    def c_args(self, all, n_params, body):
        params = 'abcdefgh'[:n_params]
        count, ops = body
        s = f'args {"--all " if all else ""}(| {", ".join(params)}: gen {count} | map (i: (i, {", ".join(params)}))'
        for op in ops:
            s += ' | ' + self.op(op)
        return s + ' |)'


def run_cli(session, pipeline, text=None):
    """Returns (text, Result)."""
    cli = Cli()
    text = cli.pipeline(pipeline)
    for var, value in cli.vars.items():
        session.set(var, value)
    return text, session.eval(text)


def check_cli(session, pipeline, cx=None):
    """Run a pipeline in the session and compare with the model."""
    try:
        expected = model(pipeline)
        kill = None
    except ModelKill as e:
        kill = e
    text, result = run_cli(session, pipeline)
    if kill is not None:
        if cx:
            cx.label('killed')
        if result.killed is None:
            raise Violation(f'{text}: must be rejected ({kill}), but returned {short(result.out)}')
        return None
    if result.killed is not None:
        raise Violation(f'{text}: failed with {result.killed}, expected {short(expected)}')
    compare(result.out, expected, bag_only(pipeline[1]), text, buffering_case(pipeline[1]))
    return expected


# ---------------------------------------------------------------------------------------------------------------------
# Rendering through marcel.api

class Api(object):

    def __init__(self):
        import marcel.api
        self.api = marcel.api
        self.namespace = {'pos': marcel.api.pos}

    def __reduce__(self):
        # Functions refer to self, and are pickled by fork.
        return Api, ()

    def f(self, source):
        return eval('lambda ' + source, self.namespace)

    def source(self, rows):
        a = self.api
        if len(rows) == 0:
            return a.gen(1) | a.select(lambda x: False)
        rows = list(rows)
        return a.gen(len(rows)) | a.map(lambda i: rows[i])

    def pipeline(self, pipeline):
        rows, ops = pipeline
        p = self.source(rows)
        for op in ops:
            p = p | self.op(op)
        return p

    def ops(self, ops):
        p = self.op(ops[0])
        for op in ops[1:]:
            p = p | self.op(op)
        return p

    def op(self, op):
        return getattr(self, 'a_' + op[0])(*op[1:])

    def a_head(self, n): return self.api.head(n)

    def a_tail(self, n): return self.api.tail(n)

    def a_reverse(self): return self.api.reverse()

    def a_sort(self, key): return self.api.sort() if key is None else self.api.sort(self.f(KEY[key]))

    def a_unique(self, c): return self.api.unique(consecutive=bool(c))

    def a_window(self, kind, arg):
        a = self.api
        return (a.window(self.f(PRED[arg])) if kind == 'p' else
                a.window(overlap=arg) if kind == 'o' else
                a.window(disjoint=arg))

    def a_map(self, f): return self.api.map(self.f(FN[f]))

    def a_select(self, p): return self.api.select(self.f(PRED[p]))

    def a_expand(self, p): return self.api.expand() if p is None else self.api.expand(p)

    def red_fn(self, f):
        if f in REDF:
            return self.f(REDF[f])
        name = API_RED[f]
        return None if name is None else getattr(self.api, name)

    def a_squish(self, f): return self.api.squish() if f is None else self.api.squish(self.red_fn(f))

    def a_cast(self, types):
        import builtins
        return self.api.cast(*[getattr(builtins, t) for t in types])

    def a_red(self, i, functions): return self.api.red(*[self.red_fn(f) for f in functions], incremental=bool(i))

    def a_union(self, subs): return self.api.union(*[self.pipeline(s) for s in subs])

    def a_intersect(self, subs):
        assert len(subs) == 1
        return self.api.intersect(self.pipeline(subs[0]))

    def a_difference(self, sub): return self.api.difference(self.pipeline(sub))

    def a_filter(self, mode, compare, sub):
        return self.api.filt(self.pipeline(sub), compare=self.f(FN[compare]) if compare else None,
                             keep=mode == 'keep', discard=mode == 'discard')

    def a_join(self, keep, sub): return self.api.join(self.pipeline(sub), keep=bool(keep))

    def a_case(self, branches, default):
        args = []
        for p, ops in branches:
            args.append(self.f(PRED[p]))
            args.append(self.ops(ops))
        if default is not None:
            args.append(self.ops(default))
        return self.api.case(*args)

    def a_args(self, all, n_params, body):
        a = self.api
        params = ', '.join('abcdefgh'[:n_params])
        count, ops = body

        def build(*values):
            p = self.api.gen(count) | self.api.map(lambda i: (i, *values))
            for op in ops:
                p = p | self.op(op)
            return p
        f = eval(f'lambda {params}: build({params})', {'build': build})
        return a.args(f, all=bool(all))


# ---------------------------------------------------------------------------------------------------------------------
# Generation

ints = st.integers(-3, 9)
words = st.sampled_from(['', 'a', 'b', 'ab', 'x y', '\u00e9', '10', 'None', '(1,)', "q'"])
floats = st.sampled_from([0.0, 1.0, -2.5, 0.1, 3.0])
scalars = st.one_of(ints, ints, words, floats, st.booleans())
nested = st.one_of(st.lists(ints, max_size=3), st.tuples(ints, words), st.just(()), st.just([]),
                   st.dictionaries(words, ints, max_size=2))
values = st.one_of(scalars, scalars, scalars, nested, st.none())


def column(kind):
    return {'i': ints, 's': words, 'f': floats, 'm': scalars, 'n': nested, 'v': values}[kind]


@st.composite
def rows(draw, kinds='ismv', max_size=12, min_width=0, max_width=4, ragged=True, lists=True, scalar=True):
    """A list of values, as emitted by a source operator."""
    shapes = ['tuple'] * 4
    if lists:
        shapes += ['list', 'mixed']
    if scalar:
        shapes += ['scalar', 'scalar']
    shape = draw(st.sampled_from(shapes))
    kind = draw(st.sampled_from(kinds))
    size = draw(st.one_of(st.integers(0, max_size), st.integers(0, 4)))
    pool = None
    if shape == 'scalar':
        element = column(kind)
        if kind in ('n', 'v'):
            element = scalars
    else:
        width = draw(st.integers(min_width, max_width))
        columns = [draw(st.sampled_from(kind + kinds)) for _ in range(max_width)]
        if ragged and draw(st.integers(0, 3)) == 0:
            element = st.integers(min_width, max_width).flatmap(
                lambda w: st.tuples(*[column(c) for c in columns[:w]]))
        else:
            element = st.tuples(*[column(c) for c in columns[:width]])
        if shape == 'list':
            element = element.map(list)
        elif shape == 'mixed':
            element = st.one_of(element, element.map(list))
    # Duplicates matter: often draw from a small pool of values
    if draw(st.booleans()) and size > 0:
        pool = draw(st.lists(element, min_size=1, max_size=3))
        return draw(st.lists(st.sampled_from(pool), min_size=size, max_size=size))
    return draw(st.lists(element, min_size=size, max_size=size))


counts = st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7, 12, 13, 20])
signed_counts = st.one_of(counts, counts.map(lambda n: -n))

OPS = {
    'head': st.tuples(st.just('head'), signed_counts),
    'tail': st.tuples(st.just('tail'), signed_counts),
    'reverse': st.just(('reverse',)),
    'sort': st.tuples(st.just('sort'), st.sampled_from([None] + [k for k in sorted(KEY) if not k.startswith('fail')])),
    'unique': st.tuples(st.just('unique'), st.booleans()),
    'window': st.one_of(
        st.tuples(st.just('window'), st.just('o'), st.integers(1, 5)),
        st.tuples(st.just('window'), st.just('d'), st.integers(1, 5)),
        st.tuples(st.just('window'), st.just('p'), st.sampled_from(['true', 'false', 'even', 'third', 'wide', 'truthy']))),
    'map': st.tuples(st.just('map'), st.sampled_from([k for k in sorted(FN) if not k.startswith('fail')])),
    'map0': st.tuples(st.just('map'), st.sampled_from(['id', 'rev', 'keyed', 'repr', 'dup', 'tolist'])),
    'select': st.tuples(st.just('select'), st.sampled_from([k for k in sorted(PRED) if not k.startswith('fail')])),
    'expand': st.tuples(st.just('expand'), st.sampled_from([None, None, 0, 1, 2, 3, 5])),
    'squish': st.tuples(st.just('squish'), st.sampled_from([None, '+', 'count', 'concat', 'join', 'and', 'or'])),
    'cast': st.tuples(st.just('cast'), st.lists(
        st.sampled_from(['str', 'bool', 'repr', 'str', 'type', 'int', 'float', 'list', 'tuple']),
        min_size=1, max_size=4)),
}


def op_lists(names, min_size=0, max_size=4):
    return st.lists(st.one_of(*[OPS[n] for n in names]), min_size=min_size, max_size=max_size)
