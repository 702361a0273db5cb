"""Streams with objects that are identified by a number: processes and history records."""
import hypothesis.strategies as st

from harness import mar
from harness.core import short

# An object, or something else
items = st.one_of(st.tuples(st.just('object'), st.integers(0, 4)), st.tuples(st.just('object'), st.integers(0, 4)), st.tuples(st.just('number'), st.integers(0, 4)),
                  st.tuples(st.just('other'), st.sampled_from([None, 'x', 1.5])))
OPS = ['unique', 'union', 'intersect', 'difference', 'filter', 'discard', 'join', 'sort', 'reverse sort', 'max', 'min', 'equal', 'count']
cases = st.tuples(st.lists(items, min_size=1, max_size=8), st.lists(items, max_size=5), st.sampled_from(OPS), st.booleans())


def check_operators(case, cx, objects, number, make_again):
    """objects: five of them, in the order of number(object). make_again(object): An equal object"""
    left, right, op, aliased = case
    if op in ('sort', 'reverse sort', 'max', 'min'):
        left = [x for x in left if x[0] == 'object']

    def value(x, again=False):
        kind, i = x
        return (make_again(objects[i]) if again and aliased else objects[i]) if kind == 'object' else number(objects[i]) if kind == 'number' else i

    s = mar.shared_session()
    lvalues = [value(x, i % 2 == 1) for i, x in enumerate(left)]
    rvalues = [value(x, i % 2 == 0) for i, x in enumerate(right)]
    s.set('LV', lvalues)
    s.set('RV', rvalues)
    l = f'gen {len(left)} | map (i: LV[i])' if left else 'gen 1 | select (x: False)'
    r = f'(| gen {len(right)} | map (i: RV[i]) |)' if right else '(| gen 1 | select (x: False) |)'
    text = {'unique': f'{l} | unique', 'union': f'{l} | union {r}', 'intersect': f'{l} | intersect {r}', 'difference': f'{l} | difference {r}',
            'filter': f'{l} | filter {r}', 'discard': f'{l} | filter -d {r}', 'join': f'{l} | map (x: (x, 0)) | join {r}', 'sort': f'{l} | sort',
            'reverse sort': f'{l} | sort | reverse', 'max': f'{l} | red max', 'min': f'{l} | red min', 'equal': f'{l} | map (x: [x == y for y in RV] + [x != y for y in RV])',
            'count': f'{l} | map (x: (x, 1)) | red . +'}[op]
    result = s.eval(text)
    key = lambda v: ('object', number(v)) if type(v) is type(objects[0]) else (type(v).__name__, v)
    lk, rk = [key(v) for v in lvalues], [key(v) for v in rvalues]
    distinct = lambda ks: list(dict.fromkeys(ks))
    if op == 'equal':
        expected = [tuple([a == b for b in rk] + [a != b for b in rk]) for a in lk]
        got = [tuple(x) for x in result.out]
        ordered = True
    elif op == 'count':
        expected, ordered = [(k, lk.count(k)) for k in distinct(lk)], False
        got = [(key(x[0]), x[1]) for x in result.out]
    else:
        ordered = op not in ('intersect', 'difference')
        minus = list(lk)
        for k in rk:
            if k in minus:
                minus.remove(k)
        both = list(lk)
        for k in minus:
            both.remove(k)
        expected = {'unique': distinct(lk), 'union': lk + rk, 'intersect': both, 'difference': minus, 'filter': [k for k in lk if k in rk],
                    'discard': [k for k in lk if k not in rk], 'join': [k for k in lk for _ in range(rk.count(k))],
                    'sort': sorted(lk) if lk and set(k[0] for k in lk) == {'object'} else [], 'reverse sort': sorted(lk)[::-1] if op == 'reverse sort' else [],
                    'max': [max(lk)] if op == 'max' and lk else [], 'min': [min(lk)] if op == 'min' and lk else []}[op]
        got = [key(x[0]) for x in result.out]
        if op in ('max', 'min') and not lk:
            got = []
    what = f'{text} on {left} and {right}: {short(result)}'
    cx.eq(result.killed, None, what)
    cx.true(not result.errors, what)
    if ordered:
        cx.eq(got, expected, what)
    else:
        cx.eq(sorted(map(repr, got)), sorted(map(repr, expected)), what)
    cx.label(op)
    cx.nontrivial(len(set(lk)) < len(lk) or bool(set(lk) & set(rk)))
