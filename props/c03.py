"""C03: red."""
import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check

INT = ['+', '*', 'max', 'min', '&', '^', 'and', 'or', 'count', 'concat', 'last', 'join', 'sub']
STR = ['+', 'max', 'min', 'and', 'or', 'count', 'concat', 'last', 'join']
LIST = ['+', 'max', 'count', 'concat', 'last', 'or']
FUNCTIONS = {'i': INT, 's': STR, 'l': LIST, 'n': ['+', 'max', 'and', 'or', 'count', 'concat', 'last', 'join', 'last', 'count']}
VALUES = {'i': st.integers(-5, 40), 's': st.sampled_from(['', 'a', 'b', 'ab', 'zz', 'B']),
          'l': st.lists(st.integers(0, 3), max_size=2), 'n': st.sampled_from([None, None, 0, 3, 7])}


@st.composite
def reductions(draw):
    width = draw(st.integers(1, 4))
    kinds = [draw(st.sampled_from('iisln')) for _ in range(width)]
    size = draw(st.one_of(st.integers(0, 14), st.integers(2, 8)))
    n = draw(st.integers(1, width))
    grouped = draw(st.booleans())
    functions = []
    for i in range(n):
        if grouped and kinds[i] != 'l' and draw(st.booleans()):
            functions.append('.')
        else:
            functions.append(draw(st.sampled_from(FUNCTIONS[kinds[i]])))
    columns = []
    for i in range(width):
        v = VALUES[kinds[i]]
        if i < n and functions[i] == '.':
            # Few groups
            v = st.sampled_from([0, 1, 2]) if kinds[i] == 'i' else st.sampled_from(['', 'a']) if kinds[i] == 's' else st.sampled_from([None, 0])
        columns.append(v)
    extra = draw(st.booleans())
    row = st.tuples(*columns)
    if draw(st.integers(0, 4)) == 0:
        row = row.map(list)
    rows = draw(st.lists(row, min_size=size, max_size=size))
    if draw(st.integers(0, 5)) == 0 and rows:
        # Too short for the number of functions: an error in place of that tuple
        i = draw(st.integers(0, len(rows) - 1))
        rows[i] = rows[i][:n - 1]
    incremental = draw(st.booleans())
    before = draw(st.sampled_from([[], [], [], [('select', 'third')], [('head', 5)], [('tail', 4)], [('reverse',)]]))
    after = draw(st.sampled_from([[], [], [], [('map', 'len')], [('select', 'even')]]
                                 + ([[('tail', 2)], [('head', 2)], [('reverse',)], [('unique', True)]]
                                    if incremental or '.' not in functions else [])))
    return rows, before + [('red', incremental, functions)] + after


def check_red(case, cx):
    rows, op_list = case
    red = [op for op in op_list if op[0] == 'red'][0]
    expected = ops.check_cli(mar.shared_session(), case, cx)
    groups = len({tuple([r[i] for i in range(len(red[2])) if red[2][i] == '.']) for r in rows if len(r) >= len(red[2])})
    cx.nontrivial(len(rows) >= 3 and (groups > 1 or '.' not in red[2]))
    cx.label('incremental' if red[1] else 'final')
    cx.label('grouping' if '.' in red[2] else 'not grouping')
    if red[1] and 'concat' in red[2]:
        cx.label('incremental concat')


@check('red', reductions, quick=9000, thorough=150000, shards=(5, 8),
       rule='at least 3 input tuples, and more than one group if there is grouping')
def red(case, cx):
    check_red(case, cx)


@st.composite
def unhappy(draw):
    """Tuples on which one of the reductions fails: an error, and no effect on any reduction."""
    width = draw(st.integers(1, 3))
    element = st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.sampled_from(['a', 'b']))
    functions = [draw(st.sampled_from(['+', 'sub', 'max', 'count', 'join', 'concat'])) for _ in range(width)]
    rows = draw(st.lists(st.tuples(*[element] * width), min_size=2, max_size=8))
    if draw(st.booleans()):
        rows = [(draw(st.integers(0, 1)), *r) for r in rows]
        functions = ['.'] + functions
    return rows, [('red', draw(st.booleans()), functions)]


@check('failing', unhappy, quick=2500, thorough=20000, shards=(2, 4), rule='at least one reduction failed')
def failing(case, cx):
    expected = ops.check_cli(mar.shared_session(), case, cx)
    cx.nontrivial(any(isinstance(x, ops.Err) for x in expected))
