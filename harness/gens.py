"""Random pipelines over all the modelled operators."""
import hypothesis.strategies as st

from harness import ops

NAMES = ['head', 'tail', 'reverse', 'sort', 'unique', 'window', 'map', 'map0', 'select', 'expand', 'squish', 'cast']


def sub(draw, max_ops=1):
    rows = draw(ops.rows(kinds='is', max_size=5, min_width=1, lists=False))
    return rows, draw(ops.op_lists(['head', 'tail', 'reverse', 'sort', 'select'], max_size=max_ops))


REDS = st.lists(st.sampled_from(['.', '+', 'count', 'max', 'min', 'concat', 'join', 'last', 'and', 'or']),
                min_size=1, max_size=3)


@st.composite
def any_op(draw, depth=1, modelled=False):
    kind = draw(st.sampled_from(['plain'] * 5 + ['red', 'union', 'intersect', 'difference', 'filter', 'join', 'case',
                                                 'args', 'failmap', 'failselect']))
    if kind == 'plain':
        return draw(st.one_of(*[ops.OPS[n] for n in NAMES]))
    if kind == 'failmap':
        return 'map', draw(st.sampled_from(['fail3', 'failpos', 'failint']))
    if kind == 'failselect':
        return 'select', draw(st.sampled_from(['fail3', 'failint']))
    if kind == 'red':
        return 'red', draw(st.booleans()), draw(REDS)
    if kind == 'union':
        return 'union', [sub(draw) for _ in range(draw(st.integers(1, 2)))]
    if kind == 'intersect':
        return 'intersect', [sub(draw)]
    if kind == 'difference':
        return 'difference', sub(draw)
    if kind == 'filter':
        return ('filter', draw(st.sampled_from(['keep', 'discard'])), draw(st.sampled_from([None, 'id', 'first'])),
                sub(draw))
    if kind == 'join':
        return 'join', draw(st.booleans()), sub(draw)
    if depth == 0:
        return 'map', 'id'
    body = draw(st.lists(any_op(depth - 1, modelled), min_size=1, max_size=2))
    if kind == 'case':
        if modelled:
            # Operators which emit some of their output at once and some at the end are not modelled inside case
            body = [op for op in body if op[0] not in ('window', 'tail', 'case', 'args', 'union')] or [('map', 'fail3')]
        default = draw(st.one_of(st.none(), st.just([('map', 'id')])))
        return 'case', [(draw(st.sampled_from(['even', 'third', 'wide', 'str'])), body)], default
    return 'args', draw(st.booleans()) and draw(st.booleans()), 1, (draw(st.integers(1, 3)), body)


@st.composite
def pipelines(draw, max_ops=4, modelled=False):
    rows = draw(ops.rows(kinds='ismv', max_size=8))
    op_list = draw(st.lists(any_op(modelled=modelled), min_size=1, max_size=max_ops))
    return rows, op_list
