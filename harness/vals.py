"""Generated values of any picklable type, and a strict comparison of them."""
import math
import pathlib

import hypothesis.strategies as st

scalars = st.one_of(st.integers(-5, 5), st.integers(), st.floats(), st.text(max_size=6), st.sampled_from(['', 'a', 'abc' * 50]),
                    st.binary(max_size=4), st.none(), st.booleans(), st.dates(), st.complex_numbers(),
                    st.builds(pathlib.PurePosixPath, st.sampled_from(['a', '/b c', '.'])))
hashable = st.recursive(scalars, lambda x: st.one_of(st.tuples(x, x), st.frozensets(x, max_size=2)), max_leaves=3)
values = st.recursive(scalars, lambda x: st.one_of(st.lists(x, max_size=3), st.tuples(x), st.tuples(x, x),
                                                   st.dictionaries(hashable, x, max_size=2), st.sets(hashable, max_size=2)),
                      max_leaves=4)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, complex):
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    return a == b
