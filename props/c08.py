"""C08: the Python API and the language; notations of functions; reuse of API pipelines; first, iteration, run."""
import contextlib
import io
import os
import re
import shutil

import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check, same, short
from harness.gens import pipelines

def gather(p, unwrap=False):
    """Returns (items, killed)"""
    import marcel.api
    err = io.StringIO()
    out = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        items = marcel.api.gather(p, unwrap_singleton=unwrap)
    return [mar.plain(x) for x in items], err.getvalue()


def same_error(a, b):
    """Errors show functions: by source in the language, by address in the API."""
    return mar.is_error(a) and mar.is_error(b) and tail(a[1]) == tail(b[1])


def tail(message):
    """The operator, the exception and its message. Not the functions, which are shown by source or by address."""
    op = re.match(r'Running (\w+)', message)
    i = message.rfind('<class')
    return (op.group(1) if op else '') + ' ' + (message[i:] if i >= 0 else message[message.rfind(': '):])


def equivalent(a, b):
    return len(a) == len(b) and all(same(x, y) or same_error(x, y) for x, y in zip(a, b))


@check('api vs language', pipelines, quick=4000, thorough=80000, shards=(5, 8), rule='output that is not empty')
def api_vs_language(case, cx):
    """The same program, in the language, and composed in Python."""
    s = mar.api_session()
    text, r = ops.run_cli(s, case)
    p = ops.Api().pipeline(case)
    items, err = gather(p)
    if r.killed is not None:
        cx.label('killed')
        cx.true(err != '' or any(mar.is_error(x) for x in items),
                f'{text}: killed in the language ({r.killed}), but the API gave {short(items)}')
    else:
        cx.true(not err, f'{text}: the API printed {err!r}, the language gave {short(r.out)}')
        cx.true(equivalent(items, r.out), f'{text}: API {short(items)}, language {short(r.out)}')
        cx.nontrivial(len(r.out) > 0)
    for op in case[1]:
        cx.label(op[0])
    if r.errors:
        cx.label('with errors')


@check('forms of execution', lambda: pipelines(max_ops=3), quick=2000, thorough=30000, shards=(3, 8),
       rule='at least two outputs')
def forms(case, cx):
    """gather, iteration, first and run give the same; a pipeline can be executed again and used in others."""
    import marcel.api as api
    import marcel.object.error
    mar.api_session()
    spec = ops.Api().pipeline(case)
    items, err = gather(spec)
    if err:
        return
    unwrapped = [x[0] if not mar.is_error(x) and len(x) == 1 else x for x in items]
    out = io.StringIO()
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(out):
        again = [mar.plain(x) for x in api.gather(spec)]
        iterated = [mar.plain(x) for x in spec]
        try:
            first = api.first(spec)
        except Exception as e:
            first = ('#exception', str(e))
        first_raw = None
        if items and not mar.is_error(items[0]):
            first_raw = api.first(spec, unwrap_singleton=False)
        composed = [mar.plain(x) for x in api.gather(spec | api.map(lambda *x: (0, x)))]
        twice = [mar.plain(x) for x in api.gather(spec | api.union(spec))]
        once_more = [mar.plain(x) for x in api.gather(spec)]
    cx.true(equivalent(again, unwrapped), f'{case}: gather(unwrap) gave {short(again)}, expected {short(unwrapped)}')
    cx.true(equivalent(iterated, items) or equivalent(iterated, unwrapped),
            f'{case}: iteration gave {short(iterated)}, expected {short(items)}')
    if not items:
        cx.eq(first, None, 'first of nothing')
    elif mar.is_error(items[0]):
        cx.true(isinstance(first, tuple) and first[:1] == ('#exception',), f'{case}: first gave {first}, expected an exception')
    else:
        cx.true(same(first, unwrapped[0]), f'{case}: first gave {short(first)}, expected {short(unwrapped[0])}')
        cx.true(same(first_raw, items[0]), f'{case}: first(unwrap_singleton=False) gave {short(first_raw)}')
    good = [x for x in items if not mar.is_error(x)]
    cx.true(same([x[1] for x in composed if not mar.is_error(x)], [tuple(x) for x in good]),
            f'{case}: | map gave {short(composed)}')
    def bag(xs):
        return sorted([repr(x) if not mar.is_error(x) else 'E' + tail(x[1]) for x in xs])
    cx.true(bag(twice) == bag(unwrapped + unwrapped), f'{case}: p | union(p) gave {short(twice)}')
    cx.true(equivalent(once_more, unwrapped), f'{case}: used again, gather gave {short(once_more)}, before {short(unwrapped)}')
    # run prints what gather gathers
    out = io.StringIO()
    with contextlib.redirect_stderr(out), contextlib.redirect_stdout(out):
        api.run(spec)
    lines = out.getvalue()
    with contextlib.redirect_stdout(io.StringIO()) as expected:
        for x in unwrapped:
            if not mar.is_error(x):
                print(x)
    if not any(mar.is_error(x) for x in items):
        cx.eq(lines, expected.getvalue(), f'output of run {case}')
    cx.nontrivial(len(items) > 1)


@st.composite
def stops(draw):
    n = draw(st.integers(1, 8))
    k = draw(st.integers(0, 8))
    body = draw(st.lists(st.sampled_from(['map', 'select', 'args', 'case', 'expand']), max_size=3))
    fail = draw(st.booleans())
    return n, k, body, fail


@check('first stops', stops, quick=300, thorough=3000, rule='more inputs than first needs')
def first_stops(case, cx):
    """first returns the first output, without running the pipeline any further."""
    import marcel.api as api
    mar.api_session()
    n, k, body, fail = case
    seen = []

    def f(x):
        seen.append(x)
        if fail and x == k:
            raise ValueError('boom')
        return x
    p = api.gen(n) | api.map(f) | api.select(lambda x: x >= k)
    for b in body:
        p = p | (api.map(lambda x: x) if b == 'map' else
                 api.select(lambda x: True) if b == 'select' else
                 api.args(lambda a: api.gen(1) | api.map(lambda i: a)) if b == 'args' else
                 api.case(lambda x: True, api.map(lambda x: x)) if b == 'case' else
                 api.map(lambda x: [x, x]) | api.expand())
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            first = api.first(p)
    except Exception as e:
        first = type(e).__name__
    expected = None if k >= n else 'Exception' if fail else k
    cx.eq(first, expected, f'first, {case}')
    cx.eq(seen, list(range(min(n, k + 1))), f'inputs processed, {case}')
    cx.nontrivial(k + 1 < n)


# Bodies of functions with two parameters: expressions over a and b
EXPRS = ['a + b', '(a, b)', '[a, b]', '{a: b}', 'a', 'b * 2', 'a if b else b', 'max(a, b)', '"%s:%s" % (a, b)',
         '[i for i in range(a)]', '(lambda c: c + a)(b)', '{"x": a}["x"]', 'a == b', 'not a', "str(a) + ')'",
         "'(' + str(b)", 'a * -b', '{i: i for i in range(b)}', 'f"{a}:{b}"', '"a, b: x"', 'a[0] if type(a) is str else b',
         '(a)', '1 / b']
PARAMS = ['a, b', 'a,b', ' a , b ', 'a,  b', 'a, b=5', 'a, *b', '*a, b=7', 'a, b=(1, {2: 3})', 'a, /, b', 'a, b, *c', 'a, b, **k',
          'a=1, b=2', 'a, *, b=3', '*b, a=[2][0:1]', 'a, b, *c, d="x:y", **k']


@st.composite
def notations(draw):
    expr = draw(st.sampled_from(EXPRS))
    params = draw(st.sampled_from(PARAMS))
    rows = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), min_size=1, max_size=4))
    return expr, params, rows


@check('notations', notations, quick=1200, thorough=10000, shards=(2, 4), rule='every case')
def notations_check(case, cx):
    """The same function, written in all the ways there are to write a function."""
    expr, params, rows = case
    s = mar.api_session()
    s.set('R', rows)
    source = f'gen {len(rows)} | map (i: R[i])'
    f = eval(f'lambda {params}: {expr}')
    expected = []
    for a, b in rows:
        try:
            v = f(a, b)
            expected.append(v if isinstance(v, (list, tuple)) else (v,))
        except Exception:
            expected.append('error')
    cx.nontrivial()

    def run(how, text, setup=()):
        for t in setup:
            r = s.eval(t)
            cx.true(r.killed is None, f'{how}: {t}: {r}')
        r = s.eval(f'{source} | {text}')
        actual = ['error' if mar.is_error(x) else x for x in r.out]
        cx.true(r.killed is None and same(actual, expected), f'{how}: {source} | {text} {setup}: expected {short(expected)}, got {r}')
    run('lambda', f'map (lambda {params}: {expr})')
    run('short', f'map ({params}: {expr})')
    run('no operator', f'({params}: {expr})')
    run('no operator, lambda', f'(lambda {params}: {expr})')
    run('spaces', f'map (  {params}  :  {expr}  )')
    run('variable', 'map (a, b: F(a, b))', [f'F = ({params}: {expr})'])
    run('variable, lambda', 'map (*x: F(*x))', [f'F = (lambda {params}: {expr})'])
    run('args', f'map (*x: (lambda {params}: {expr})(*x))')
    run('parameter', 'p (F)', [f'F = ({params}: {expr})', 'p = (| g: map (*x: g(*x)) |)'])
    run('pipeline', 'q', [f'q = (| map ({params}: {expr}) |)'])
    # select, with the truth value of the function
    if 'error' not in expected:
        r = s.eval(f'{source} | select ({params}: {expr})')
        cx.eq(r.out, [row for row in rows if f(*row)], f'select ({params}: {expr})')
    # A constant: a bare expression is a function without parameters
    a, b = rows[0]
    s.set('a', a)
    s.set('b', b)
    try:
        constant = eval(f'lambda a, b: {expr}')(a, b)
        expected = [constant if isinstance(constant, (list, tuple)) else (constant,)]
    except Exception:
        constant = expected = None
    for text in (f'({expr})', f'(lambda: {expr})', f'(: {expr})', f'map ({expr})', f'map (lambda: {expr})'):
        r = s.eval(text)
        cx.true(same(r.out, expected) if expected else len(r.errors) == len(r.out) == 1,
                f'{text} with a = {a}, b = {b}: expected {expected}, got {r}')
    if expected and not expr.startswith('(lambda'):
        for text in (f'v = ({expr})', f'v = (lambda: {expr})', f'v=(: {expr})'):
            s.eval(text)
            cx.eq(s.get('v'), constant, text)


@st.composite
def native(draw):
    return (draw(st.sampled_from(['sort', 'select', 'map', 'red', 'case', 'filter', 'window', 'args', 'squish'])),
            draw(st.lists(st.integers(0, 9), max_size=8)), draw(st.integers(0, 3)))


@check('function objects', native, quick=200, thorough=2000, rule='more than one input')
def function_objects(case, cx):
    """API functions may be lambdas, closures, named functions, bound methods, builtins and partials."""
    import functools
    import marcel.api as api
    mar.api_session()
    name, values, k = case

    def named(x):
        return (x + k) % 4

    class C(object):
        def method(self, x):
            return (x + k) % 4

        def __call__(self, x):
            return (x + k) % 4
    fs = [lambda x: (x + k) % 4, named, C().method, functools.partial(lambda y, x: (x + y) % 4, k), C()]
    src = lambda: api.gen(len(values) + 1) | api.select(lambda i: i < len(values)) | api.map(lambda i: values[i])
    results = []
    for f in fs:
        if name == 'map':
            p, expected = src() | api.map(f), [named(x) for x in values]
        elif name == 'select':
            p, expected = src() | api.select(f), [x for x in values if named(x)]
        elif name == 'sort':
            p, expected = src() | api.sort(f), sorted(values, key=named)
        elif name == 'case':
            p, expected = src() | api.case(f, api.map(lambda x: -x)), [-x for x in values if named(x)]
        elif name == 'filter':
            p = src() | api.filt(api.gen(2), compare=f, keep=True)
            expected = [x for x in values if named(x) in (0, 1)]
        elif name == 'window':
            p, expected = src() | api.window(f), None
        elif name == 'args':
            p = src() | api.args(lambda x: api.map(lambda: f(x)))
            expected = [named(x) for x in values]
        elif name == 'red':
            p = src() | api.map(f) | api.red(max)
            expected = None
        else:
            p = src() | api.map(f) | api.squish(api.r_plus)
            expected = [named(x) for x in values]
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            out = [mar.plain(x) for x in api.gather(p)]
        cx.true(not err.getvalue(), f'{name} {f} {case}: {err.getvalue()}')
        if expected is not None:
            cx.eq(out, expected, f'{name} with {f} on {values}')
        results.append(out)
    cx.true(all(same(x, results[0]) for x in results), f'{case}: {results}')
    cx.nontrivial(len(values) > 1)


# Operators that work on files, directories and variables. A step is rendered both ways.

FILES = ['a.csv', 'b c.csv', 't.tsv', 'o.json', 'p.pickle', 'plain', 'empty', 'link', 'dead', 'sub', 'sub/deep', 'sub/x.csv', '.hid', 'nosuch', '.']
GLOBS = ['*', '*.csv', 'sub/*', '?*', '[ab]*', '*.nothing', '*/*']


def build(top):
    import json
    import pickle
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(f'{top}/sub/deep')
    for name, text in [('a.csv', 'h,i\n1,2\n"x y",\n'), ('b c.csv', 'h 1\n3\n'), ('t.tsv', 'h\ti\n4\t5\n'), ('o.json', '{"a": [1, 2]}'),
                       ('plain', 'one\n two \n\nthree'), ('empty', ''), ('.hid', 'h\n'), ('sub/x.csv', 'u,v\n7,8\n'), ('sub/deep/plain', 'z\n')]:
        with open(f'{top}/{name}', 'w') as f:
            f.write(text)
    with open(f'{top}/p.pickle', 'wb') as f:
        for x in (1, 'two', (3, None)):
            pickle.dump(x, f)
    os.symlink('a.csv', f'{top}/link')
    os.symlink('nowhere', f'{top}/dead')


def snapshot(top):
    out = []
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            path = f'{d}/{f}'
            out.append((path, os.readlink(path) if os.path.islink(path) else open(path, 'rb').read()))
        out.append(d)
    return out


name_of_var = st.sampled_from(['va', 'vb', '_c'])
some_paths = st.lists(st.sampled_from(FILES + GLOBS), max_size=3)
file_steps = st.one_of(
    st.tuples(st.just('ls'), some_paths, st.sampled_from([None, 0, 1, 'r']), st.sets(st.sampled_from(['file', 'dir', 'symlink']))),
    st.tuples(st.just('read'), st.lists(st.sampled_from(FILES + GLOBS), min_size=1, max_size=2), st.sampled_from([None, None, 0, 1, 'r']),
              st.sampled_from([None, None, 'csv', 'csv', 'tsv', 'json', 'pickle']), st.sampled_from([None, None, 'headings', 'skip_headings']), st.booleans()),
    st.tuples(st.just('ls read'), some_paths, st.sampled_from([None, 'csv']), st.booleans()),
    st.tuples(st.just('write'), st.sampled_from(['out', 'a.csv', 'sub/out', 'new file', 'nosuch/out']), st.sampled_from([None, None, 'csv', 'tsv', 'pickle', 'format']),
              st.booleans(), st.integers(1, 3)),
    st.tuples(st.just('cd'), st.sampled_from(['sub', 'sub/deep', '..', '.', 'nosuch', 'plain', None])),
    st.tuples(st.just('pushd'), st.sampled_from(['sub', 'sub/deep', '..', '.', 'nosuch', None, None])),
    st.tuples(st.just('popd')),
    st.tuples(st.just('popd')),
    st.tuples(st.just('dirs'), st.sampled_from([None, None, False, True])),
    st.tuples(st.just('pwd')),
    st.tuples(st.just('version')),
    st.tuples(st.just('assign'), name_of_var, st.one_of(st.integers(-3, 3), st.sampled_from(['x y', '', None, 1.5, (1, 'b'), [2]]))),
    st.tuples(st.just('env'), st.one_of(name_of_var, st.sampled_from(['HOME', 'USER', 'nosuch', 'PWD']))),
    st.tuples(st.just('env pattern'), st.sampled_from(['HOM', 'v', 'a', 'NOSUCH'])),
    st.tuples(st.just('env delete'), st.one_of(name_of_var, st.sampled_from(['HOME', 'nosuch', 'PWD']))),
    st.tuples(st.just('bash'), st.sampled_from(['echo a  b', 'pwd', 'cat plain', 'cat nosuch', 'exit 3'])),
    st.tuples(st.just('trace'), st.sampled_from(['on file', 'off', 'both'])))


def quoted(path):
    return '"' + path + '"' if ' ' in path else path


def step_cli(step, top):
    kind = step[0]
    if kind == 'ls':
        _, paths, depth, kinds = step
        flags = [{0: '-0', 1: '-1', 'r': '-r'}[depth]] if depth is not None else []
        return ' '.join(['ls'] + flags + ['--' + k for k in sorted(kinds)] + [quoted(p) for p in paths])
    if kind == 'read':
        _, paths, depth, form, head, label = step
        flags = [{0: '-0', 1: '-1', 'r': '-r'}[depth]] if depth is not None else []
        flags += ['--' + form] if form else []
        flags += ['--' + head.replace('_', '-')] if head else []
        flags += ['--label'] if label else []
        return ' '.join(['read'] + flags + [quoted(p) for p in paths])
    if kind == 'ls read':
        _, paths, form, label = step
        return ' '.join(['ls'] + ['-f'] + [quoted(p) for p in paths]) + ' | read' + (' -c' if form else '') + (' -l' if label else '')
    if kind == 'write':
        _, path, form, append, n = step
        return (f'gen {n} | map (x: (x, "a b")) | write ' + ('--format "{{}}!{{}}" '.replace('{{}}', '{}') if form == 'format' else f'--{form} ' if form else '') +
                ('--append ' if append else '') + quoted(path))
    if kind == 'dirs':
        return 'dirs --clear' if step[1] else 'dirs'
    if kind in ('cd', 'pushd'):
        return kind if step[1] is None else f'{kind} {step[1]}'
    if kind == 'assign':
        return f'{step[1]} = ({step[2]!r})'
    if kind == 'env':
        return f'env {step[1]}'
    if kind == 'env pattern':
        return f'env -p {step[1]}'
    if kind == 'env delete':
        return f'env -d {step[1]}'
    if kind == 'bash':
        return f'bash {step[1]}'
    if kind == 'trace':
        return {'on file': f'trace --file {top}/../tr', 'off': 'trace --off', 'both': 'trace --off --on'}[step[1]]
    return kind


def step_api(step, top):
    import marcel.api as api
    kind = step[0]
    where = {0: {'depth': 0}, 1: {'depth': 1}, 'r': {'recursive': True}, None: {}}
    if kind == 'ls':
        return api.ls(*step[1], **where[step[2]], **{k: True for k in step[3]})
    if kind == 'read':
        _, paths, depth, form, head, label = step
        return api.read(*paths, **where[depth], **({form: True} if form else {}), **({head: True} if head else {}), label=label)
    if kind == 'ls read':
        _, paths, form, label = step
        return api.ls(*paths, file=True) | api.read(csv=form is not None, label=label)
    if kind == 'write':
        _, path, form, append, n = step
        return api.gen(n) | api.map(lambda x: (x, 'a b')) | api.write(path, append=append, **({'format': '{}!{}'} if form == 'format' else {form: True} if form else {}))
    if kind == 'dirs':
        return api.dirs() if step[1] is None else api.dirs(clear=step[1])
    if kind in ('cd', 'pushd'):
        f = getattr(api, kind)
        return f() if step[1] is None else f(step[1])
    if kind == 'assign':
        return api.assign(step[1], step[2])
    if kind == 'env':
        return api.env(step[1])
    if kind == 'env pattern':
        return api.env(pattern=step[1])
    if kind == 'env delete':
        return api.env(delete=step[1])
    if kind == 'bash':
        return api.bash(step[1])
    if kind == 'trace':
        return {'on file': lambda: api.trace(file=f'{top}/../tr'), 'off': lambda: api.trace(off=True), 'both': lambda: api.trace(off=True, on=True)}[step[1]]()
    return getattr(api, kind)()


def described(x):
    import marcel.object.file
    if type(x) in (tuple, list):
        return type(x)(described(y) for y in x)
    if isinstance(x, marcel.object.file.File):
        return 'File', str(x.path), repr(x)
    if isinstance(x, tuple):  # A named tuple, of read -h
        return type(x).__name__, getattr(x, '_fields', None), [described(y) for y in x]
    return str(x) if isinstance(x, str) else repr(x) if hasattr(x, '__dict__') else x  # Names of variables are a subclass of str


def of_interest(step, items):
    if step[0] == 'env pattern':
        return [x for x in items if mar.is_error(x) or x[0] in ('HOME', 'va', 'vb', '_c')]
    return items


@check('files and variables', lambda: st.lists(file_steps, min_size=1, max_size=7), quick=700, thorough=16000, shards=(3, 8),
       rule='at least three steps, and at least two with output')
def files_and_variables(steps, cx):
    """The same history of steps on files, directories and variables, in the language and in the API."""
    import marcel.api as api
    import marcel.exception
    s = mar.api_session()
    top = os.path.realpath(f'{s.home}/t')
    results = []
    for language in (True, False):
        os.chdir(s.home)
        build(top)
        env = s.env if language else api._ENV
        env.trace.disable()
        for x in (f'cd "{top}"', 'dirs -c', 'env -d va', 'env -d vb', 'env -d _c'):
            if language:
                s.eval(x)
        if not language:
            for x in [api.cd(top), api.dirs(clear=True)] + [api.env(delete=v) for v in ('va', 'vb', '_c')]:
                gather(x)
        out = []
        for step in steps:
            if language:
                r = s.eval(step_cli(step, top))
                items, err = r.out, (r.killed or '') + r.stderr
            else:
                try:
                    items, err = gather(step_api(step, top))
                except marcel.exception.KillCommandException as e:  # The arguments are checked when the operator is created
                    items, err = [], str(e)
            out.append((of_interest(step, described(items)), err != '', os.getcwd(), env.trace.is_enabled()))
        env.trace.disable()
        os.chdir(s.home)
        results.append((out, snapshot(top)))
    texts = [step_cli(step, top) for step in steps]
    for i, (a, b) in enumerate(zip(results[0][0], results[1][0])):
        cx.true(a[1:] == b[1:] and equivalent(b[0], a[0]), f'{texts[:i + 1]}: language {short(a)}, API {short(b)}')
        cx.label(steps[i][0])
    cx.eq(results[1][1], results[0][1], f'{texts}: files, after the API and after the language')
    cx.nontrivial(len(steps) > 2 and sum(1 for x in results[0][0] if x[0]) > 1)
