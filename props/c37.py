"""C37: env shows exactly the variables there are, with their current values."""
import os

import hypothesis.strategies as st

from harness import mar
from harness.core import check, short

NAMES = ['a', 'aa', 'ab', 'xa', 'B', 'long_name', '_u', 'é', 'a1', 'PROMPT', 'pwd', 'H', 'HOMES']
VALUES = ['0', '1.5', "'s'", "''", 'None', '[1]', '(1, 2)', '{}', 'lambda x: x', 'True', "b'x'", 'set()', 'File', '[None]', 'float("nan")', '1j', 'object()']
BUILT_IN = ['HOME', 'PWD', 'USER', 'HOST', 'File', 'WORKSPACE', 'parse_args', 'o', '__builtins__']
PATTERNS = ['a', 'A', 'HO', '_', '', 'zz', '.', 'ab', '__b', '*', 'é', 'long_name', '^a']

name = st.sampled_from(NAMES)
steps = st.one_of(
    st.tuples(st.just('set'), name, st.sampled_from(VALUES)),
    st.tuples(st.just('set'), name, st.sampled_from(VALUES)),
    st.tuples(st.just('string'), name, st.text(alphabet='abc 1-é', max_size=4)),
    st.tuples(st.just('store'), name, st.integers(1, 3)),
    st.tuples(st.just('pipeline'), name, st.integers(1, 3)),
    st.tuples(st.just('import'), name, st.sampled_from(['pi', 'sin', 'inf'])),
    st.tuples(st.just('delete'), name, st.booleans()),
    st.tuples(st.just('cd'), st.sampled_from(['d', 'e f'])),
    st.tuples(st.just('os set'), name, st.text(alphabet='ab =', max_size=4)),
    st.tuples(st.just('os unset'), name))
queries = st.one_of(
    st.tuples(st.sampled_from(['all', 'all -b', 'os all'])),
    st.tuples(st.sampled_from(['pattern', 'pattern -b', 'os pattern']), st.sampled_from(PATTERNS)),
    st.tuples(st.sampled_from(['var', 'os var']), st.one_of(name, st.sampled_from(BUILT_IN), st.just('nosuch'))))


@st.composite
def histories(draw):
    n = draw(st.integers(1, 12))
    return [(draw(st.one_of(steps, steps, queries)), draw(st.lists(st.tuples(name, st.integers(-3, 3)), max_size=2, unique_by=lambda x: x[0]))) for _ in range(n)]


def quote(x):
    return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'


def query_text(q):
    options = {'all': '', 'all -b': '-b', 'os all': '--os', 'pattern': '-p', 'pattern -b': '--builtins --pattern', 'os pattern': '-o -p', 'var': '', 'os var': '-o'}[q[0]]
    return ' '.join(['env'] + ([options] if options else []) + ([quote(q[1])] if len(q) > 1 else []))


@check('env', histories, quick=900, thorough=20000, shards=(4, 8), rule='at least two queries after at least two changes of variables')
def env(case, cx):
    """A history of changes of variables, and env commands, also where variables are hidden by parameters of a pipeline."""
    mar.reset_home(f'{cx.scratch}/home')
    work = f'{cx.scratch}/work'
    for d in ['d', 'e f']:
        os.makedirs(f'{work}/{d}', exist_ok=True)
    os.chdir(work)
    environ = dict(os.environ)
    s = mar.Session(config='')
    try:
        history(case, cx, s, work)
    finally:
        os.environ.clear()
        os.environ.update(environ)


def history(case, cx, s, work):
    initial = s.eval('env -b').raw
    cx.eq(sorted(k for k, _ in initial if k in BUILT_IN), sorted(BUILT_IN), 'variables defined by marcel')
    model = dict(initial)
    fixed = set(model)
    host = dict(os.environ)
    changes = 0
    asked = 0
    for step, parameters in case:
        kind = step[0]
        if kind in ('set', 'string', 'store', 'pipeline', 'import', 'delete'):
            v = step[1]
            if kind == 'delete':
                r = s.eval(f'env {"-d" if step[2] else "--delete"} {v}')
                if v in fixed:
                    cx.true(r.killed is not None and v in r.killed, f'deletion of {v}: {r}')
                    cx.eq(r.out, [], f'deletion of {v}: output')
                else:
                    cx.eq(r.killed, None, f'deletion of {v}')
                    cx.true(identical(r.raw, [(v, model.pop(v))] if v in model else []), f'deletion of {v}: {r}')
                changes += 1
                continue
            text = {'set': f'{v} = ({step[2]})', 'string': f'{v} = {quote(str(step[2]))}', 'store': f'gen {step[2]} >$ {v}',
                    'pipeline': f'{v} = (| gen {step[2]} |)', 'import': f'import -a {v} math {step[2]}'}[kind]
            r = s.eval(text)
            if v in fixed:
                cx.true(r.killed is not None, f'{text}: {r}')
                continue
            cx.eq(r.killed, None, f'{text}')
            changes += 1
            value = s.get(v)
            if kind == 'set' and 'object' not in step[2] and 'lambda' not in step[2] and step[2] != 'File':
                cx.eq(repr(value), repr(eval(step[2])), text)
            elif kind == 'string':
                cx.eq(value, step[2], text)
            model[v] = value
        elif kind == 'cd':
            cx.eq(s.eval(f'cd {quote(work + "/" + step[1])}').killed, None, f'{step}')
            model['PWD'] = f'{work}/{step[1]}'
            changes += 1
        elif kind.startswith('os ') and kind in ('os set', 'os unset'):
            if kind == 'os set':
                os.environ[step[1]] = host[step[1]] = step[2]
            else:
                os.environ.pop(step[1], None)
                host.pop(step[1], None)
        else:
            ask(cx, s, step, parameters, model, host)
            asked += 1
    cx.nontrivial(changes > 1 and asked > 1)


def identical(actual, expected):
    return len(actual) == len(expected) and all(
        type(a) is tuple and len(a) == 2 and a[0] == e[0] and (a[1] is e[1] or type(a[1]) is type(e[1]) and repr(a[1]) == repr(e[1]))
        for a, e in zip(actual, expected))


def ask(cx, s, step, parameters, model, host):
    kind = step[0]
    text = query_text(step)
    os_env = kind.startswith('os ')
    variables = dict(host if os_env else model)
    if parameters:
        # A call of a pipeline, the parameters of which may hide variables
        names = [p for p, _ in parameters]
        text = f'gen {len(names)} | args (|{", ".join(names)}: {text}|)'
        if not os_env:
            variables.update({p: i for i, p in enumerate(names)})
    r = s.eval(text)
    if kind.endswith('var'):
        v = step[1]
        if v not in variables:
            cx.true(r.killed is not None and v in r.killed or any(v in e[1] for e in r.errors), f'{text}: {r}')
            cx.eq(r.values, [], text)
            return
        expected = [(v, variables[v])]
    else:
        pattern = step[1] if len(step) > 1 else ''
        expected = [(k, variables[k]) for k in sorted(variables) if pattern in k and (os_env or kind.endswith('-b') or k != '__builtins__')]
    cx.eq(r.killed, None, text)
    actual = list(r.raw)
    names = [str(x[0]) for x in actual]
    wanted = [x[0] for x in expected]
    cx.eq([sorted(set(names) - set(wanted)), sorted(set(wanted) - set(names))], [[], []], f'{text}: superfluous and missing variables')
    cx.eq(names, wanted, f'{text}: names of variables')
    for a, e in zip(actual, expected):
        cx.true(identical([a], [e]), f'{text}: {short(a)}, expected {short(e)}')
