"""C04: set operators. Rows are tuples (or scalars) of hashable values: anything else is documented to be rejected."""
import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check


@st.composite
def universe(draw):
    """A small set of rows, so that the operands have many tuples in common."""
    scalar = draw(st.booleans())
    element = st.one_of(ops.ints, ops.words, st.sampled_from([1.0, True, None, 2, (1, 'a')]))
    if scalar:
        row = element.filter(lambda x: type(x) is not tuple)
    else:
        row = draw(st.sampled_from([st.tuples(element), st.tuples(element, ops.ints),
                                    st.lists(element, max_size=3).map(tuple)]))
    return draw(st.lists(row, min_size=1, max_size=4))


def stream(draw, pool, max_size=10):
    size = draw(st.integers(0, max_size))
    return draw(st.lists(st.sampled_from(pool), min_size=size, max_size=size))


@st.composite
def subs(draw, pool):
    rows = stream(draw, pool)
    op_list = draw(st.sampled_from([[], [], [('reverse',)], [('tail', 3)], [('map', 'id')], [('select', 'even')],
                                    [('head', 4)], [('unique', False)], [('sort', 'repr')]]))
    return rows, op_list


@st.composite
def cases(draw):
    pool = draw(universe())
    rows = stream(draw, pool)
    kind = draw(st.sampled_from(['union', 'intersect', 'difference', 'filter', 'filter']))
    if kind in ('union', 'intersect'):
        args = [draw(subs(pool)) for _ in range(draw(st.integers(1, 3)))]
        op = (kind, args)
    elif kind == 'difference':
        op = (kind, draw(subs(pool)))
    else:
        mode = draw(st.sampled_from(['keep', 'discard', None]))
        compare = draw(st.sampled_from([None, None, 'id', 'first', 'len', 'rev']))
        sub = draw(subs(pool))
        if compare in ('first', 'len', 'rev'):
            sub = (sub[0], sub[1] + [('map', compare)])
            if draw(st.booleans()):
                sub = (sub[0] + [7, 2], sub[1])
        op = (kind, mode, compare, sub)
    before = draw(st.sampled_from([[], [], [], [('head', 6)], [('tail', 5)], [('reverse',)], [('window', 'd', 1)]]))
    # filter keeps the order of its input. The other operators leave it open.
    after = [[], [], [], [('map', 'len')], [('select', 'even')], [('sort', 'repr')]]
    if kind == 'filter':
        after += [[('head', 3)], [('reverse',)], [('tail', 2)], [('window', 'o', 2)]]
    else:
        after += [[('map', 'one'), ('red', False, ['count'])]]
    ops.FN['one'] = '*x: 1'
    return rows, before + [op] + draw(st.sampled_from(after))


@check('ops', cases, quick=10000, thorough=150000, shards=(6, 8),
       rule='both the input and a pipeline argument have at least 2 tuples and the operands share a tuple')
def set_ops(case, cx):
    ops.FN['one'] = '*x: 1'
    rows, op_list = case
    op = [o for o in op_list if o[0] in ('union', 'intersect', 'difference', 'filter')][0]
    cx.label(op[0])
    s = mar.shared_session()
    expected = ops.check_cli(s, case, cx)
    args = op[1] if op[0] in ('union', 'intersect') else [op[-1]]
    rights = [x for a in args for x in a[0]]
    cx.nontrivial(len(rows) > 1 and len(rights) > 1 and any(x in rights for x in rows))


@st.composite
def nested(draw):
    """Set operators inside the pipeline arguments of set operators"""
    pool = draw(universe())

    def tree(depth):
        rows = stream(draw, pool, 6)
        op_list = []
        for _ in range(draw(st.integers(1, 2)) if depth else 0):
            kind = draw(st.sampled_from(['union', 'intersect', 'difference', 'filter']))
            arg = tree(depth - 1)
            op_list.append((kind, [arg]) if kind in ('union', 'intersect') else
                           (kind, arg) if kind == 'difference' else
                           (kind, draw(st.sampled_from(['keep', 'discard'])), None, arg))
        return rows, op_list
    return tree(2)


@check('nested', nested, quick=3000, thorough=40000, shards=(2, 6),
       rule='at least 2 set operators, and output')
def nested_ops(case, cx):
    expected = ops.model(case)
    text, result = ops.run_cli(mar.shared_session(), case)
    cx.true(result.killed is None, f'{text} failed: {result.killed}')
    # The order is open, so with duplicates only multiplicities are determined, in spite of nesting
    ops.compare(result.out, expected, True, text)
    cx.nontrivial(len(expected) > 0 and sum_ops(case) > 1)


def sum_ops(pipeline):
    n = 0
    for op in pipeline[1]:
        n += 1
        for sub in (op[1] if op[0] in ('union', 'intersect') else [op[-1]]):
            n += sum_ops(sub)
    return n


@st.composite
def unhashables(draw):
    kind = draw(st.sampled_from(['intersect', 'difference', 'filter']))
    good = [(1, 2), (3, 4)]
    bad = draw(st.sampled_from([(1, [2]), ([1], 2), ({'a': 1}, 0)]))
    left = draw(st.permutations(good + draw(st.sampled_from([[], [bad]]))))
    right = draw(st.permutations(good + [bad]))
    sub = (list(right), [])
    op = (kind, [sub]) if kind == 'intersect' else (kind, sub) if kind == 'difference' else (kind, 'keep', None, sub)
    return list(left), [op]


@check('unhashable', unhashables, quick=100, thorough=500, rule='an operand has an unhashable tuple')
def unhashable(case, cx):
    """Unhashable tuples are rejected with an error."""
    text, r = ops.run_cli(mar.shared_session(), case)
    cx.nontrivial()
    cx.true(r.killed is not None and 'hashable' in r.killed, f'{text}: expected a rejection, got {r}')
