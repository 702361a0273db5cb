"""C24: fork delivers every output of every child exactly once, in order."""
import os
import collections
import contextlib
import io
import multiprocessing
import time

import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check, short
from harness.gens import pipelines


# Thread ids
@st.composite
def forkgens(draw, max_n=5):
    """(kind, ids)"""
    kind = draw(st.sampled_from(['int', 'int', 'str', 'list', 'generator', 'map', 'dict']))
    if kind == 'int':
        return kind, list(range(draw(st.integers(1, max_n))))
    if kind == 'str':
        return kind, list(draw(st.text('abcé _', min_size=1, max_size=max_n)))
    ids = st.one_of(st.integers(-3, 3), st.text('ab', max_size=2), st.booleans(), st.none(), st.tuples(st.integers(0, 2), st.text('ab', max_size=1)), st.floats(0, 1))
    if kind == 'dict':
        return kind, draw(st.lists(st.text('abc', max_size=2), min_size=1, max_size=max_n, unique=True))
    return kind, draw(st.lists(ids, min_size=1, max_size=max_n))


def cli_forkgen(s, forkgen):
    kind, ids = forkgen
    if kind == 'int':
        return f'{len(ids)}'
    s.set('IDS', ''.join(ids) if kind == 'str' else dict.fromkeys(ids) if kind == 'dict' else list(ids))
    return {'str': '(IDS)', 'list': '(IDS)', 'dict': '(IDS)', 'generator': '((x for x in IDS))', 'map': '(map(lambda x: x, IDS))'}[kind]


def api_forkgen(forkgen):
    kind, ids = forkgen
    return {'int': len(ids), 'str': ''.join(map(str, ids)), 'list': ids, 'dict': dict.fromkeys(map(str, ids)),
            'generator': (x for x in ids), 'map': map(lambda x: x, ids)}[kind]


def no_children(cx, what):
    """The children have ended."""
    deadline = time.time() + 5
    while multiprocessing.active_children() and time.time() < deadline:
        time.sleep(0.01)
    children = multiprocessing.active_children()
    for child in children:
        child.kill()
    cx.eq(len(children), 0, f'{what}: children left')


def key(id):
    return repr(id)


def per_child(cx, actual, ids, expected, what):
    """actual: items labelled with the id in front. Each child's items in order."""
    outputs = collections.defaultdict(list)
    for x in actual:
        cx.true(not mar.is_error(x) and len(x) > 0, f'{what}: {short(x)}')
        outputs[key(x[0])].append(x[1:])
    count = collections.Counter(key(id) for id in ids)
    cx.eq(sorted(outputs), sorted(k for k in count if any(expected[i] for i, id in enumerate(ids) if key(id) == k)), f'{what}: ids')
    for i, id in enumerate(ids):
        got = outputs[key(id)]
        if count[key(id)] == 1:
            cx.true(got == expected[i], f'{what}: {id!r}: expected {len(expected[i])} {short(expected[i])}, got {len(got)} {short(got)}')
        else:
            e = [x for j, other in enumerate(ids) if key(other) == key(id) for x in expected[j]]
            cx.true(sorted(map(repr, got)) == sorted(map(repr, e)), f'{what}: {id!r}: expected {len(e)} {short(e)}, got {len(got)} {short(got)}')


UNPICKLABLE = ['None', 'None', '[lambda: 5]', '{1: (x for x in [1])}', '__import__("threading").Lock()', '__import__("sys")', 'type("T", (), {})']


@st.composite
def volumes(draw):
    forkgen = draw(forkgens())
    children = []
    for _ in forkgen[1]:
        n = draw(st.sampled_from([0, 1, 1, 2, 3, 10, 100, 700]))
        size = draw(st.sampled_from([0, 0, 0, 10, 1000, 70000])) if n <= 10 else 0
        pauses = draw(st.dictionaries(st.integers(0, max(n, 1)), st.sampled_from([1, 3, 10, 30]), max_size=2))
        children.append((n, size, pauses))
    return forkgen, children, draw(st.booleans()), draw(st.sampled_from(['none', 'none', 'none', 'count', 'sort', 'map', 'tail', 'case', 'nested'])), draw(st.sampled_from(UNPICKLABLE))


def pause(pauses, i):
    if i in pauses:
        time.sleep(pauses[i] / 1000)
    return i


def payload(n, size):
    return f'{n}' + 'x' * size


@check('uneven children', volumes, quick=600, thorough=20000, shards=(6, 8), timeout=60,
       rule='at least two children, which have different numbers of outputs, or pauses')
def uneven(case, cx):
    """Children with different numbers of outputs, of different sizes, at different speeds."""
    forkgen, children, parameter, downstream, other = case
    ids = forkgen[1]
    s = mar.shared_session()
    # A variable that can't be copied to another process doesn't matter
    s.eval(f'other = ({other})')
    s.set('plan', lambda id: PLANS[key(id)])
    s.set('pause', pause)
    s.set('payload', payload)
    s.set('CH', children)
    s.set('LOG', [])
    if not parameter:
        children = [children[0]] * len(ids)
    elif len({key(id) for id in ids}) < len(ids):
        # One id, one plan
        first = {}
        children = [first.setdefault(key(id), c) for id, c in zip(ids, children)]
    PLANS = {key(id): c for id, c in zip(ids, children)}
    if parameter:
        plan, label = 'plan(t)', 't'
    else:
        plan, label = 'CH[0]', '"?"'
    head = 't: ' if parameter else ''
    body = (f'gen 701 | select (i: i <= {plan}[0]) | map (i: (i, pause({plan}[2], i), LOG.append(i))[0]) | '
            f'select (i: i < {plan}[0]) | map (i: ({label}, i, payload(i, {plan}[1])))')
    command = f'fork {cli_forkgen(s, forkgen)} (|{head}{body}|)'
    expected = [[(i, payload(i, size)) for i in range(n)] for n, size, _ in children]
    total = sum(len(e) for e in expected)
    if not parameter:
        ids = ['?'] * len(ids)
    if downstream == 'nested':
        command = f'fork 2 (|{command}|)'
        expected *= 2
        ids = ids * 2
    elif downstream != 'none':
        command += {'count': ' | red count', 'sort': ' | map (t, i, p: (repr(t), i, p)) | sort', 'map': ' | map (t, i, p: (i, t, p))', 'tail': ' | tail 1000000',
                    'case': ' | case (t, i, p: i % 2 == 0) (| map (t, i, p: (t, i, p)) |) (| map (*x: x) |)'}[downstream]
    r = s.eval(command)
    what = f'{command}, ids {forkgen}, plans {children}'
    cx.true(r.killed is None, f'{what}: {r.killed}')
    cx.label(downstream)
    if downstream == 'count':
        cx.eq(r.out, [(total,)] if total else r.out, what)
        cx.true(r.out in ([(total,)], [(0,)], []), f'{what}: {r.out}')
    elif downstream == 'sort':
        e = sorted([(repr(id), *x) for id, xs in zip(ids, expected) for x in xs])
        cx.true(r.out == e, f'{what}: expected {len(e)} {short(e)}, got {len(r.out)} {short(r.out)}')
    else:
        out = [(x[1], x[0], x[2]) for x in r.out] if downstream == 'map' else r.out
        per_child(cx, out, ids, expected, what)
    cx.eq(s.get('LOG'), [], f'{what}: variable of the session')
    s.eval('env -d other')
    no_children(cx, what)
    cx.nontrivial(len(ids) > 1 and (len({c[0] for c in children}) > 1 or any(c[2] for c in children)))


@st.composite
def programs(draw):
    return draw(forkgens(max_n=3)), draw(pipelines(max_ops=3, modelled=True)), draw(st.sampled_from(['no parameter', 'parameter', 'stored', 'called']))


def modelled(p):
    try:
        return ops.model(p)
    except ops.ModelKill:
        return None


@check('programs', programs, quick=600, thorough=20000, shards=(6, 8), timeout=60,
       rule='at least two children, and output')
def forked_programs(case, cx):
    """Every operator in a child: the outputs are those of the model, once per child; so are the errors."""
    forkgen, p, form = case
    s = mar.shared_session()
    ids = forkgen[1]
    expected = modelled(p)
    cli = ops.Cli()
    text = cli.pipeline(p)
    for var, value in cli.vars.items():
        s.set(var, value)
    if form == 'no parameter':
        child = f'(|{text}|)'
    elif form == 'parameter':
        child = f'(|t: {text} | map (*x: (t, *x))|)'
    elif form == 'stored':
        s.eval(f'p = (|t: {text} | map (*x: (t, *x))|)')
        child = 'p'
    else:
        s.eval(f'p = (|t: {text} | map (*x: (t, *x))|)')
        child = '(|t: p (t)|)'
    command = f'fork {cli_forkgen(s, forkgen)} {child}'
    r = s.eval(command)
    what = f'{command} {forkgen}'
    no_children(cx, what)
    if expected is None:
        cx.label('killed')
        cx.true(r.killed is not None, f'{what}: must be rejected, but returned {short(r.out)}')
        return
    cx.true(r.killed is None, f'{what}: {r.killed}')
    events = [x for x in expected if not isinstance(x, ops.Err)]
    errors = [x for x in expected if isinstance(x, ops.Err)]
    if form == 'no parameter':
        ops.compare(r.out, expected * len(ids), True, what, split=True)
    else:
        if ops.bag_only(p[1]):
            ops.compare(r.values, [(id, *x) for id in ids for x in events], True, what)
        else:
            per_child(cx, r.values, ids, [[tuple(x) for x in events]] * len(ids), what)
        ops.compare(r.errors, errors * len(ids), True, what, split=True)
        cx.eq(len(r.errors), len(errors) * len(ids), what)
    if errors:
        cx.label('errors')
    for op in p[1]:
        cx.label(op[0])
    cx.label(form)
    # The session is as before
    cx.eq([s.get(var) for var in cli.vars], list(cli.vars.values()), f'{what}: variables of the session')
    cx.nontrivial(len(ids) > 1 and len(expected) > 0)


@check('api', lambda: st.tuples(forkgens(max_n=3), pipelines(max_ops=2, modelled=True), st.sampled_from(['pipeline', 'function', 'function of id', 'iterated'])),
       quick=350, thorough=8000, shards=(4, 8), timeout=60, rule='at least two children, and output')
def in_api(case, cx):
    """The same, in Python."""
    global api
    mar.api_session()
    import marcel.api as api
    forkgen, p, form = case
    ids = forkgen[1]
    if forkgen[0] in ('str', 'dict'):
        ids = list(map(str, ids))
    expected = modelled(p)
    if expected is None or 'pos' in repr(p):
        return
    pipeline = (ops.Api().pipeline(p) if form == 'pipeline' else
                (lambda: ops.Api().pipeline(p)) if form == 'function' else
                (lambda t: ops.Api().pipeline(p) | api.map(lambda *x: (t, *x))))
    err = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
        forked = api.fork(api_forkgen(forkgen), pipeline)
        if form == 'iterated':
            items = [mar.plain(x) for x in forked]
        else:
            items = [mar.plain(x) for x in api.gather(forked, unwrap_singleton=False)]
    what = f'{case}'
    cx.eq(err.getvalue(), '', what)
    no_children(cx, what)
    events = [x for x in expected if not isinstance(x, ops.Err)]
    cx.eq(len(items), len(expected) * len(ids), f'{what}: {short(items)}')
    values = [x for x in items if not mar.is_error(x)]
    if form in ('pipeline', 'function'):
        ops.compare(values, events * len(ids), True, what)
    elif form == 'iterated':
        # Singletons are unwrapped
        ops.compare(values, [(id, *x) if len(x) > 0 else id for id in ids for x in events], True, what)
    elif ops.bag_only(p[1]):
        ops.compare(values, [(id, *x) for id in ids for x in events], True, what)
    else:
        per_child(cx, values, ids, [[tuple(x) for x in events]] * len(ids), what)
    cx.label(form)
    cx.nontrivial(len(ids) > 1 and len(expected) > 0)


# Failures

FAIL = {
    'kill at setup': ('ls /nosuchfile{}', 'No qualifying paths'),
    'kill at start': ('read', 'read requires filenames'),
    'kill while running': ('gen 20 | args (|n: gen 2 | cast nosuch|)', 'nosuch|not a type|Type'),
    'not executable': ('gen 3 | nosuchvar', 'not executable|not bound'),
    'unpicklable': ('gen 4 | map (i: (i, (x for x in [i])) if i % 2 else (i,))', None),
    'function': ('gen 3 | map (i: (i, lambda y: y + i + BASE))', None),
    'inner scope': ('gen 3 | map (i: (i, F))', None),
}


@check('failures', lambda: st.tuples(st.sampled_from(sorted(FAIL)), st.integers(1, 4), st.booleans(), st.integers(0, 300)),
       quick=150, thorough=3000, shards=(2, 8), timeout=60, rule='at least two children')
def failures(case, cx):
    """Commands that can't be completed; outputs that can't be, or are hard to, send."""
    kind, n, parameter, base = case
    s = mar.shared_session()
    s.set('BASE', base)
    s.eval('F = (lambda y: y + BASE)')
    body, message = FAIL[kind]
    command = f'fork {n} (|{"t: " if parameter else ""}{body.format("")}|)'
    if kind == 'function':
        command += ' | map (i, f: f(1) - i)'
    elif kind == 'inner scope':
        command += ' | map (i, f: f(i))'
    r = s.eval(command)
    no_children(cx, command)
    if message is not None:
        if kind == 'kill while running' and r.killed is None:
            cx.true(len(r.errors) > 0, f'{command}: {r}')
        else:
            cx.true(r.killed is not None, f'{command}: {r}')
        if kind in ('kill at setup', 'kill at start'):
            cx.true(r.killed.startswith(message), f'{command}: {r}')
            cx.eq(r.out, [], f'{command}: output')
    else:
        cx.eq(r.killed, None, command)
        if kind == 'unpicklable':
            cx.eq(sorted(r.values), sorted([(0,), (2,)] * n), command)
            cx.eq(len(r.errors), 2 * n, f'{command}: {r}')
        elif kind == 'function':
            cx.eq(r.out, [(1 + base,)] * 3 * n, command)
        elif kind == 'inner scope':
            cx.eq(sorted(r.out), sorted([(i + base,) for i in range(3)] * n), command)
    # The session still works
    r = s.eval('fork 2 (|gen 2 (BASE)|) | sort')
    cx.eq((r.out, r.killed), ([(base,), (base,), (base + 1,), (base + 1,)], None), f'after {command}')
    cx.label(kind)
    cx.nontrivial(n > 1)


INVALID = ['fork {n} (|a, b: {body}|)', 'fork {n} (|a, b, *c: {body}|)', 'fork {n} P2', 'fork 0 (|{body}|)', 'fork (-{n}) (|{body}|)', 'fork ([]) (|t: {body}|)',
           'fork ({n}.5) (|{body}|)', 'fork (None) (|{body}|)', 'fork {n}', 'fork {n} (|{body}|) 4', 'fork {n} (|{body}|) P1', 'fork', 'fork (|{body}|)', 'fork {n} 5',
           'fork -x {n} (|{body}|)', 'fork (1/0) (|{body}|)', 'gen {n} | fork {n} (|{body}|)', 'fork (iter([])) (|{body}|)']


@check('invalid', lambda: st.tuples(st.sampled_from(INVALID), st.integers(1, 4), st.booleans(), st.sampled_from(['', ' | (x: x)', ' | red count'])),
       quick=100, thorough=1500, shards=(2, 4), timeout=60, rule='every case')
def invalid(case, cx):
    """Commands which are not valid uses of fork: rejected, and nothing is run."""
    command, n, wrap, downstream = case
    s = mar.shared_session()
    os.chdir(f'{cx.scratch}/work')
    if os.path.exists('ran'):
        os.unlink('ran')
    body = 'gen 1 | (x: (open("ran", "w"), x)[1])'
    s.eval(f'P1 = (|a: {body}|)')
    s.eval(f'P2 = (|a, b: {body}|)')
    text = command.format(n=n, body=f'gen 1 | args (|i: {body}|)' if wrap else body) + downstream
    r = s.eval(text)
    cx.true(r.killed is not None, f'{text}: {r}')
    cx.eq(r.values, [], f'{text}: output')
    cx.eq(os.path.exists('ran'), False, f'{text}: the pipeline has been run')
    no_children(cx, text)
    cx.nontrivial()
