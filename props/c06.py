"""C06: case and args."""
import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check

PREDICATES = ['true', 'false', 'even', 'third', 'wide', 'truthy', 'str', 'pos']
IMMEDIATE = ['map', 'select', 'head', 'expand', 'unique']
AT_END = st.sampled_from([('reverse',), ('sort', 'repr'), ('sort', 'mod'), ('tail', 2), ('tail', 1),
                          ('red', False, ['count'])])


def hashable_only(op_list):
    """unique needs hashable tuples: not after functions that make lists and dicts"""
    return [op for op in op_list if op[0] != 'unique']


@st.composite
def branch(draw):
    body = hashable_only(draw(ops.op_lists(IMMEDIATE, min_size=1, max_size=3)))
    if draw(st.integers(0, 2)) == 0:
        body = body[:draw(st.integers(0, 1))] + [draw(AT_END)] + body[1:2]
    return body or [('map', 'id')]


@st.composite
def case_op(draw, max_branches=3):
    branches = [(draw(st.sampled_from(PREDICATES)), draw(branch()))
                for _ in range(draw(st.integers(1, max_branches)))]
    default = draw(st.one_of(st.none(), branch()))
    return 'case', branches, default


@st.composite
def cases(draw):
    rows = draw(ops.rows(kinds='ism', min_width=1))
    op_list = [draw(case_op())]
    before = draw(st.sampled_from([[], [], [('head', 6)], [('tail', 5)], [('map', 'keyed')]]))
    after = draw(st.sampled_from([[], [], [('map', 'pos')], [('select', 'even')], [('map', 'len')]]))
    return rows, before + op_list + after


def at_end(body):
    return body is not None and not all(ops.is_immediate(o) for o in body)


def check_case(case, cx):
    op = [o for o in case[1] if o[0] == 'case'][0]
    branches, default = op[1], op[2]
    buffered = [b for b in [x[1] for x in branches] + [default] if at_end(b)]
    expected = ops.model(case)
    text, r = ops.run_cli(mar.shared_session(), case)
    cx.true(r.killed is None, f'{text} failed: {r.killed}')
    if len(buffered) > 1 and case[1][-1][0] in ('map',):
        # The order in which the branches deliver what they buffered is open, so pos() is too.
        cx.label('order open')
        cx.true(len(r.out) == len(expected), f'{text}: expected {len(expected)} tuples, got {r.out}')
    else:
        ops.compare(r.out, expected, len(buffered) > 1, text)
    return expected, buffered


@check('case', cases, quick=5000, thorough=80000, shards=(3, 8),
       rule='at least 2 input tuples, 2 pipelines (counting the default) and some output')
def case_check(case, cx):
    expected, buffered = check_case(case, cx)
    op = [o for o in case[1] if o[0] == 'case'][0]
    cx.nontrivial(len(case[0]) > 1 and len(op[1]) + (op[2] is not None) > 1 and len(expected) > 0)
    cx.label('default' if op[2] else 'no default')
    if buffered:
        cx.label('with buffering branches')


@st.composite
def args_op(draw, depth=1):
    n_params = draw(st.integers(1, 4))
    all = draw(st.integers(0, 3)) == 0
    if all:
        n_params = 1
    count = draw(st.integers(1, 3))
    names = ['map', 'select', 'head', 'tail', 'reverse', 'sortr', 'window', 'expand', 'red', 'union', 'join',
             'case', 'difference', 'intersect', 'filter', 'args']
    body = []
    for _ in range(draw(st.integers(0, 2))):
        name = draw(st.sampled_from(names))
        if name == 'sortr':
            body.append(('sort', 'repr'))
        elif name == 'red':
            body.append(('red', draw(st.booleans()), ['count']))
        elif name == 'union':
            body.append(('union', [(['u', 'v'], draw(st.sampled_from([[], [('reverse',)]])))]))
        elif name == 'join':
            body.append(('join', draw(st.booleans()), ([(0, 'zero'), (1, 'one'), (1, 'uno')], [])))
        elif name in ('difference', 'intersect', 'filter'):
            body.append(('map', 'repr'))
            body.append(('map', 'len'))
            sub = ([1, 1, 1, 2], draw(st.sampled_from([[], [('reverse',)]])))
            body.append(('intersect', [sub]) if name == 'intersect' else
                        ('difference', sub) if name == 'difference' else
                        ('filter', draw(st.sampled_from(['keep', 'discard'])), None, sub))
        elif name == 'case':
            body.append(('case', [('even', [draw(st.sampled_from([('map', 'len'), ('reverse',), ('tail', 1),
                                                                  ('sort', 'repr')]))])],
                         draw(st.sampled_from([None, [('map', 'id')]]))))
        elif name == 'args':
            if depth > 0:
                body.append(draw(args_op(depth - 1)))
        else:
            body.append(draw(ops.OPS[name]))
    return 'args', all, n_params, (count, body)


@st.composite
def args_cases(draw):
    rows = draw(ops.rows(kinds='ism'))
    before = draw(st.sampled_from([[], [], [('head', 6)], [('tail', 5)], [('map', 'keyed')]]))
    after = draw(st.sampled_from([[], [], [('map', 'pos')], [('tail', 3)], [('window', 'o', 2)], [('reverse',)],
                                  [('red', False, ['count'])]]))
    return rows, before + [draw(args_op())] + after


def op_names(op_list):
    for op in op_list:
        yield op[0]
        if op[0] == 'args':
            yield from op_names(op[3][1])


@check('args', args_cases, quick=5000, thorough=80000, shards=(4, 8),
       rule='the pipeline runs at least twice')
def args_check(case, cx):
    rows, op_list = case
    op = [o for o in op_list if o[0] == 'args'][0]
    expected = ops.check_cli(mar.shared_session(), case, cx)
    cx.nontrivial(not op[1] and len(rows) > op[2])
    cx.label('all' if op[1] else f'{op[2]} parameters')
    if not op[1] and len(rows) % op[2]:
        cx.label('partial batch')
    for name in set(op_names(op[3][1])):
        cx.label(f'in args: {name}')


@check('invalid', lambda: st.sampled_from([
    'gen 3 | args (| gen 3 |)', 'gen 3 | args --all (| a, b: gen 3 |)', 'gen 3 | args --all (| gen 3 |)',
    'gen 3 | args', 'gen 3 | case (x: True)', 'gen 3 | case (| map (x: x) |)', 'gen 3 | case',
    'gen 3 | case (x: True) (x: True)', 'gen 3 | case (x: True) (| map (x: x) |) (x: False)',
    'args (| a: gen 3 |)', 'gen 3 | case (| map (x: x) |) (| map (x: x) |)',
]), quick=30, thorough=30, rule='every case')
def invalid(text, cx):
    """Usages documented as invalid are rejected."""
    r = mar.shared_session().eval(text)
    cx.nontrivial()
    cx.true(r.killed is not None and not r.values, f'{text}: must be rejected, got {r}')
