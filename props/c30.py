"""C30: executing a pipeline is repeatable; tracing changes nothing."""
import os

import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check
from harness.gens import any_op, pipelines

FORMS = ['direct', 'stored', 'args', 'nested', 'union', 'traced', 'args all', 'case', 'twice', 'join', 'copy']


@st.composite
def repeated(draw):
    rows, op_list = draw(pipelines(max_ops=3, modelled=True))
    return rows, op_list, draw(st.lists(st.sampled_from(FORMS), min_size=1, max_size=4))


def tuples(events):
    return [x for x in events if not isinstance(x, ops.Err)]


def has_pos(op_list):
    return 'pos' in repr(op_list)


@check('repetition', repeated, quick=5000, thorough=80000, shards=(5, 8),
       rule='the pipeline has output, and is executed in at least two ways')
def repetition(case, cx):
    """A stored pipeline gives the same output however often and wherever it is executed."""
    rows, op_list, forms = case
    s = mar.shared_session()
    try:
        expected = ops.model((rows, op_list))
    except ops.ModelKill:
        cx.label('killed')
        return
    cli = ops.Cli()
    text = cli.pipeline((rows, op_list))
    for var, value in cli.vars.items():
        s.set(var, value)
    r = s.eval(f'p = (| {text} |)')
    cx.true(r.killed is None, f'p = (| {text} |): {r}')
    n_forms = 0
    for form in ['stored'] + forms + ['stored']:
        events = expected
        bag = ops.bag_only(op_list)
        if form == 'direct':
            command = text
        elif form in ('stored', 'copy'):
            command = 'p'
            if form == 'copy':
                s.eval('p = (p)')
        elif form == 'args':
            command = 'gen 3 | args (| n: p |)'
            events = expected * 3
        elif form == 'args all':
            command = 'gen 3 | args --all (| n: p |)'
        elif form == 'nested':
            s.eval('q = (| x, y: p | map (*z: (y, *z)) |)')
            command = 'q (7) (8)'
            events = [x if isinstance(x, ops.Err) else (8, *x) for x in expected]
        elif form == 'union':
            command = 'p | union (| p |)'
            events = expected + expected
            bag = True
        elif form == 'case':
            command = 'gen 4 | case (i: i % 2 == 0) (| args (| i: p |) |)'
            events = expected * 2
        elif form == 'join':
            command = 'gen 2 | map (i: (i, i)) | join (| p | map (*z: (0, z)) |)'
            events = [(0, 0, tuple(x)) for x in tuples(expected)]
        elif form == 'twice':
            s.eval('q = (| p |)')
            command = 'q'
        elif form == 'traced':
            command = 'p'
            s.eval(f'trace -f {s.home}/trace')
        what = f'p = (| {text} |); {form}: {command}'
        r = s.eval(command)
        if form == 'traced':
            t = s.eval('trace -0')
            cx.true(t.killed is None and os.path.getsize(f'{s.home}/trace') > 0, f'{what}: tracing: {t}')
            os.unlink(f'{s.home}/trace')
        cx.true(r.killed is None, f'{what}: {r}')
        if form == 'join':
            actual = sorted([repr((x[0], x[1], tuple(x[2]))) for x in r.values])
            cx.eq(actual, sorted([repr(x) for x in events]), what)
        else:
            ops.compare(r.out, events, bag, what, ops.buffering_case(op_list))
        n_forms += 1
        cx.label(form)
    cx.nontrivial(len(expected) > 0 and n_forms > 2)


@st.composite
def transformers(draw):
    op_list = draw(st.lists(any_op(modelled=True), min_size=1, max_size=3))
    return op_list, draw(st.lists(ops.rows(kinds='is', max_size=6), min_size=2, max_size=4))


@check('several inputs', transformers, quick=3000, thorough=40000, shards=(3, 8),
       rule='at least two of the inputs give output')
def several_inputs(case, cx):
    """One stored pipeline without a source, applied to several streams, one after the other."""
    op_list, inputs = case
    s = mar.shared_session()
    cli = ops.Cli()
    sources = [cli.source(rows) for rows in inputs]
    text = cli.ops(op_list)
    for var, value in cli.vars.items():
        s.set(var, value)
    r = s.eval(f't = (| {text} |)')
    cx.true(r.killed is None, f't = (| {text} |): {r}')
    n = 0
    for rows, source in zip(inputs, sources):
        what = f't = (| {text} |); {source} | t'
        r = s.eval(f'{source} | t')
        try:
            expected = ops.model((rows, op_list))
        except ops.ModelKill:
            cx.label('killed')
            cx.true(r.killed is not None, f'{what}: must be rejected, but returned {r}')
            continue
        cx.true(r.killed is None, f'{what}: {r}')
        ops.compare(r.out, expected, ops.bag_only(op_list), what, ops.buffering_case(op_list))
        n += len(expected) > 0
    cx.nontrivial(n > 1)


# Commands covering all the operators that can run anywhere. {d} is a scratch directory.
COMMANDS = [
    'gen 3', 'gen 3 4 | head 2', 'ls {d}', 'ls -fr {d}', 'ls -d {d}', 'cd {d} | map (x: x)', 'pwd', 'pushd {d}', 'popd',
    'dirs', 'cd /nowhere', 'env PWD', 'env -d NOSUCH', 'env USER', 'read {d}/a.csv', 'read -c {d}/a.csv',
    'read -cl {d}/a.csv', 'read -ch {d}/a.csv', 'read -t {d}/a.csv', 'gen 3 | write {d}/out', 'read {d}/out', 'gen 3 | write -c',
    'gen 3 | write -f "{{}}!"', 'gen 2 | map (x: 1 / x) | write', 'gen 3 | write -p {d}/pickle', 'read -p {d}/pickle',
    'bash echo hello', 'cat {d}/a.csv', 'gen 3 | cat', 'version', 'gen 4 | (x: x * 2)', 'gen 3 > v', 'v <', 'gen 3 >> v',
    'gen 3 >$ v', 'v <$', 'gen 2 >>$ v', 'v <$ map (x: x)', 'v <$ args (| x: gen (x + 1) |)', 'x = 5', 'x = (5 + 6)',
    '(x)', 'f = (| n: gen (int(n) + 1) |)', 'f (3)', 'f -n 2', 'f 4', 'gen 3 | args (| x: f (x) |)', 'fork 3 (| t: gen 2 | map (x: (t, x)) |) | sort',
    'import math', '(math.pi)', 'import math pi', '(pi)', 'import -a m math', 'gen 3 | load w', 'gen 3 | store w', 'ws -l', 'ws',
    'gen 3 | red +', 'gen 3 | red -i +', 'gen 3 | map (x: (x, x)) | red . +', 'gen 3 | squish', 'gen 3 | squish max',
    'gen 3 | window (x: x == 1)', 'gen 3 | window -o 2', 'gen 3 | window -d 2', 'gen 3 | sort (x: -x)', 'gen 3 | reverse',
    'gen 3 | unique', 'gen 3 | unique -c', 'gen 3 | tail 2', 'gen 3 | join (| gen 2 |)', 'gen 3 | join -k (| gen 2 |)',
    'gen 3 | intersect (| gen 2 |)', 'gen 3 | difference (| gen 2 |)', 'gen 3 | union (| gen 2 |)',
    'gen 3 | filter -d (| gen 2 |)', 'gen 3 | filter -c (x: x + 1) (| gen 2 |)', 'gen 3 | cast str', 'gen 3 | expand',
    'gen 3 | map (x: (x, (x, 1))) | expand 1', 'gen 3 | case (x: x == 1) (| map (x: 10) |) (| map (x: 20) |)',
    'gen 3 | select (x: x > 0)', 'gen 3 | map (x: 1 / x)', 'gen 3 | sort (x: 1 / x)', 'gen 3 | window (x: 1 / x)',
    'gen 3 | select (x: 1 / x > 0)', 'gen 3 | red (a, b: b / 0)', 'gen 3 | squish (a, b: 1 / 0)', 'gen 3 | cast nosuch',
    'gen 3 | upload {d}', 'gen (1 / 0)', 'head 3', 'timer (| gen 3 |)', 'nosuchcommand', 'gen 3 | ls {d}', 'ps | select (p: False)',
    'ps -u root | select (p: False)', 'help gen | select (x: False)', 'delvar x' if False else 'env -p x | select (*x: False)',
    'gen 2 | map (x: x) | tail 1 | args --all (| x: map (y: x) |)', 'gen 2 | args (| x: gen 1 | map (y: x) |)',
]


@st.composite
def histories(draw):
    return draw(st.lists(st.sampled_from(range(len(COMMANDS))), min_size=1, max_size=8))


def masked(r, d):
    return repr((r.out, r.killed, r.stderr)).replace(d, 'D')


@check('tracing', histories, quick=400, thorough=6000, shards=(3, 8), pre=[[i] for i in range(len(COMMANDS))],
       rule='at least three commands')
def tracing(case, cx):
    """The same commands, in two sessions, one of which traces."""
    results = []
    for traced in (False, True):
        s = mar.Session()
        d = f'{s.home}/d'
        os.makedirs(f'{d}/sub')
        with open(f'{d}/a.csv', 'w') as f:
            f.write('a,b\n1,2\n"x y",3\n')
        open(f'{d}/sub/empty', 'w').close()
        os.chdir(d)
        if traced:
            s.eval(f'trace -f {s.home}/trace')
        results.append([masked(s.eval(COMMANDS[i].format(d=d)), d) for i in case])
        if traced:
            cx.true(s.env.trace.is_enabled(), f'{[COMMANDS[i] for i in case]}: tracing has been turned off')
        s.close()
        os.chdir(s.home)
    for i, off, on in zip(case, *results):
        cx.eq(on, off, f'{[COMMANDS[i] for i in case]}: with tracing, {COMMANDS[i]}')
        cx.label(COMMANDS[i].split()[0])
    cx.nontrivial(len(case) > 2)
