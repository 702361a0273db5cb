"""C05: join."""
import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check

KEYS = st.sampled_from([0, 1, 2, 1.0, 'a', '', 'b', None, (1, 2), True, -1])
FEW = st.sampled_from([0, 1, 'a'])
REST = st.one_of(ops.ints, ops.words, ops.nested, st.none())


@st.composite
def side(draw, max_size=8):
    key = draw(st.sampled_from([KEYS, FEW, FEW]))
    if draw(st.integers(0, 5)) == 0:
        row = key.filter(lambda x: type(x) is not tuple)
    else:
        width = draw(st.integers(0, 3))
        row = st.tuples(key, *[REST] * width)
        if draw(st.integers(0, 3)) == 0:
            row = st.one_of(st.tuples(key), st.tuples(key, REST), st.tuples(key, REST, REST))
        if draw(st.integers(0, 4)) == 0:
            row = row.map(list)
    return draw(st.lists(row, max_size=max_size))


AROUND = [[], [], [], [('head', 5)], [('tail', 4)], [('reverse',)], [('select', 'even')], [('map', 'id')],
          [('sort', 'repr')]]


@st.composite
def joins(draw):
    left = draw(side())
    right = draw(side())
    sub = (right, draw(st.sampled_from(AROUND)))
    op_list = [('join', draw(st.booleans()), sub)]
    if draw(st.integers(0, 3)) == 0:
        op_list.append(('join', draw(st.booleans()), (draw(side(4)), [])))
    return left, draw(st.sampled_from(AROUND)) + op_list + draw(st.sampled_from(AROUND + [[('window', 'o', 2)]]))


@check('join', joins, quick=8000, thorough=120000, shards=(5, 8),
       rule='a join finds a match for some left tuple')
def join(case, cx):
    expected = ops.check_cli(mar.shared_session(), case, cx)
    op = [o for o in case[1] if o[0] == 'join'][0]
    keys = [ops.wrap(x)[0] for x in op[2][0]]
    matched = [x for x in case[0] if ops.wrap(x)[0] in keys]
    cx.nontrivial(bool(matched) and bool(expected))
    if len(matched) < len(case[0]):
        cx.label('unmatched left tuples')
    if any(keys.count(k) > 1 for k in keys):
        cx.label('repeated right keys')
    cx.label('keep' if op[1] else 'no keep')


@st.composite
def counted(draw):
    left = draw(st.lists(st.tuples(FEW, ops.ints), min_size=0, max_size=6))
    right = draw(st.lists(st.tuples(FEW, ops.ints), min_size=0, max_size=5))
    return left, right, draw(st.booleans())


@check('once', counted, quick=1000, thorough=8000, shards=(1, 2), rule='at least 2 left tuples and 1 right tuple')
def once(case, cx):
    """The right pipeline runs at most once, whatever the number of left tuples (the function it uses counts its calls)."""
    left, right, keep = case
    s = mar.shared_session()
    calls = []
    s.set('COUNTED', [])
    s.set('LEFT', left)
    s.set('RIGHT', right)
    calls = s.get('COUNTED')
    text = (f'gen {max(1, len(left))} | select (i: i < len(LEFT)) | map (i: LEFT[i]) | join {"-k " if keep else ""}'
            f'(| gen {max(1, len(right))} | select (i: i < len(RIGHT)) | map (i: (COUNTED.append(i), RIGHT[i])[1]) |)')
    r = s.eval(text)
    ops.compare(r.out, ops.model((left, [('join', keep, (right, []))])), False, text)
    if left:
        cx.eq(calls, list(range(len(right))), 'right tuples evaluated')
    cx.nontrivial(len(left) > 1 and len(right) > 0)


@check('unhashable', lambda: st.tuples(st.booleans(), st.integers(0, 3), st.booleans()), quick=40, thorough=64,
       rule='every case')
def unhashable(case, cx):
    """A join value that is not hashable is rejected with an error."""
    in_left, position, keep = case
    left = [(1, 2), (2, 3), (3, 4)]
    right = [(1, 5), (3, 6), (7, 8)]
    (left if in_left else right).insert(position, ([1], 0))
    text, r = ops.run_cli(mar.shared_session(), (left, [('join', keep, (right, []))]))
    cx.nontrivial()
    cx.true(r.killed is not None and 'hashable' in r.killed, f'{text}: expected a rejection, got {r}')
