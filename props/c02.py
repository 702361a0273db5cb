"""C02: per-tuple operators."""
import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check

PER_TUPLE = ['map', 'select', 'expand', 'squish', 'cast']


@st.composite
def pipelines(draw):
    names = draw(st.sampled_from([PER_TUPLE, PER_TUPLE, ['map', 'expand'], ['expand'], ['squish'], ['cast', 'expand']]))
    # A None in the input of a reduction is indistinguishable from "no value yet"
    rows = draw(ops.rows(kinds='ismn' if 'squish' in names else 'ismnv'))
    main = draw(ops.op_lists(names, min_size=1, max_size=4))
    main = [op for i, op in enumerate(main)
            if not (op[0] == 'squish' and any(o[0] in ('squish', 'cast') or o[1:] == ('none',) for o in main[:i]))]
    around = draw(st.sampled_from([[], [], [('head', 5)], [('tail', 3)], [('reverse',)]]))
    return (rows, around + main) if draw(st.booleans()) else (rows, main + around)


@check('compose', pipelines, quick=9000, thorough=150000, shards=(4, 8),
       rule='at least 2 input tuples reach the operators, and at least one tuple comes out')
def compose(case, cx):
    expected = ops.check_cli(mar.shared_session(), case, cx)
    cx.nontrivial(bool(expected) and len(case[0]) >= 2)
    for op in case[1]:
        cx.label(op[0])
    if expected and any(isinstance(x, ops.Err) for x in expected):
        cx.label('with errors')


@st.composite
def expansions(draw):
    """expand where a nested sequence is at, before or after the given position"""
    position = draw(st.sampled_from([None, 0, 1, 2, 3]))
    element = st.one_of(ops.nested, ops.nested, ops.ints, ops.words, st.none())
    row = st.lists(element, min_size=1, max_size=4)
    rows = draw(st.lists(st.one_of(row.map(tuple), row), min_size=1, max_size=5))
    second = draw(st.sampled_from([None, None, 0, 1]))
    return rows, [('expand', position)] + ([('expand', second)] if second is not None else [])


@check('expand', expansions, quick=3000, thorough=30000, shards=(2, 4),
       rule='a tuple has a sequence at the position to be expanded')
def expand(case, cx):
    ops.check_cli(mar.shared_session(), case, cx)
    p = case[1][0][1]
    cx.nontrivial(any((len(r) > p and isinstance(r[p], (list, tuple, dict))) if p is not None else len(r) > 1
                      for r in case[0]))


@st.composite
def positions(draw):
    rows = draw(ops.rows(kinds='is', max_size=10))
    filler = st.sampled_from([None, ('select', 'third'), ('expand', None), ('head', -1), ('window', 'd', 2),
                              ('select', 'even'), ('tail', 3), ('red', True, ['count'])])
    use = st.sampled_from([('map', 'pos'), ('select', 'pos')])
    main = [draw(filler), draw(use), draw(filler), draw(use), draw(st.one_of(st.none(), use))]
    main = [op for op in main if op is not None]
    return rows, main


@check('pos', positions, quick=2000, thorough=20000, shards=(1, 4), rule='at least 2 uses of pos() on at least 3 tuples')
def pos(case, cx):
    ops.check_cli(mar.shared_session(), case, cx)
    cx.nontrivial(len(case[0]) > 2 and sum([1 for op in case[1] if op[1] == 'pos']) > 1)


@check('expand-negative', lambda: st.tuples(ops.rows(kinds='in'), st.integers(-4, -1), st.booleans()),
       quick=80, thorough=500, rule='the stream is not empty')
def expand_negative(case, cx):
    """The position must be non-negative: a negative one is rejected."""
    rows, position, parens = case
    s = mar.shared_session()
    cli = ops.Cli()
    source = cli.source(rows)
    for var, value in cli.vars.items():
        s.set(var, value)
    text = f'{source} | expand ({position})' if parens else f'{source} | expand {position}'
    r = s.eval(text)
    cx.nontrivial(len(rows) > 0)
    cx.true(r.killed is not None and not r.values, f'{text}: must be rejected, got {r}')
