"""C01: positional and ordering operators."""
import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check

POSITIONAL = ['head', 'tail', 'reverse', 'sort', 'unique', 'window']


@st.composite
def pipelines(draw):
    rows = draw(ops.rows(kinds='iismv'))
    before = draw(ops.op_lists(['map0', 'select'], max_size=1))
    main = draw(ops.op_lists(POSITIONAL, min_size=1, max_size=4))
    after = draw(ops.op_lists(['map', 'select'], max_size=1))
    return rows, before + main + after


@check('compose', pipelines, quick=9000, thorough=150000, shards=(4, 8),
       rule='at least 2 input tuples, and not rejected')
def compose(case, cx):
    expected = ops.check_cli(mar.shared_session(), case, cx)
    cx.nontrivial(expected is not None and len(case[0]) >= 2)
    for op in case[1]:
        cx.label(op[0])


@st.composite
def exact(draw):
    """One operator, with a count near the length of the stream."""
    n = draw(st.integers(0, 8))
    rows = draw(st.lists(st.tuples(ops.ints, ops.words), min_size=n, max_size=n))
    count = max(1, n + draw(st.integers(-2, 2)))
    op = draw(st.sampled_from([('head', count), ('head', -count), ('tail', count), ('tail', -count),
                               ('window', 'o', count), ('window', 'd', count)]))
    follow = draw(st.sampled_from([[], [('reverse',)], [('window', 'o', 2)], [('tail', 2)], [('map', 'pos')]]))
    return rows, [op] + follow


@check('boundary', exact, quick=2500, thorough=20000, shards=(2, 4), rule='at least 1 input tuple')
def boundary(case, cx):
    ops.check_cli(mar.shared_session(), case, cx)
    cx.nontrivial(len(case[0]) > 0)


@st.composite
def gens(draw):
    count = draw(st.integers(1, 30))
    start = draw(st.one_of(st.none(), st.integers(-20, 120)))
    pad = draw(st.one_of(st.none(), st.integers(1, 6)))
    head = draw(st.integers(1, 12))
    short = draw(st.booleans())
    return count, start, pad, head, short


@check('gen', gens, quick=1500, thorough=10000, shards=(1, 2), rule='more than one integer generated')
def gen(case, cx):
    count, start, pad, head, short = case
    s = mar.shared_session()
    text = 'gen'
    if pad is not None:
        text += f' {"-p" if short else "--pad"} {pad}'
    text += f' {count}'
    if start is not None:
        text += f' {start}' if start >= 0 else f' ({start})'
    first = start or 0
    numbers = list(range(first, first + count))
    r = s.eval(text)
    if pad is not None and (first < 0 or len(str(numbers[-1])) > pad):
        cx.label('rejected')
        cx.true(r.killed is not None and not r.out, f'{text} must be rejected, got {r}')
        return
    cx.true(r.killed is None, f'{text} failed: {r.killed}')
    cx.eq(r.out, [(x if pad is None else str(x).rjust(pad, '0'),) for x in numbers], text)
    cx.nontrivial(count > 1)
    # A prefix of the stream
    r = s.eval(f'{text} | head {head}')
    cx.eq([x for x in r.out], [(x if pad is None else str(x).rjust(pad, '0'),) for x in numbers][:head], text)


@check('zero', lambda: st.tuples(st.sampled_from(['head', 'tail']), ops.rows(kinds='is')), quick=60, thorough=500,
       rule='the stream is not empty')
def zero(case, cx):
    """A count of zero is rejected."""
    op, rows = case
    ops.check_cli(mar.shared_session(), (rows, [(op, 0)]), cx)
    cx.nontrivial(len(rows) > 0)
