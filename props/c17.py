"""C17: JSON values are parsed and rendered without loss."""
import json
import keyword
import os
import pathlib

import hypothesis.strategies as st

from harness import mar
from harness.core import check, same

KEYS = st.one_of(st.sampled_from(['a', 'b', 'c c', '', 'items', 'assign', '__dict__', '__class__', 'self', 'class', 'é', '1', 'x.y', '"', "'", '\n', '\\', 'None',
                                  '__getitem__', 'keys', 'get', '_', '\u2028', '\x00', '\ud800', '😀', 'f']), st.text(max_size=3))
STRINGS = st.one_of(st.sampled_from(['', 'a', 'null', '"', '\\', '\n', '\r', '\t', '\u2028', '😀', '\ud83d', '\x7f', '\x00', '</', '[1]', '{}', '\ufeff']), st.text(max_size=5))
SCALARS = st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.integers(), st.floats(), STRINGS,
                    st.sampled_from([-0.0, 0.0, 1e300, 5e-324, 10 ** 40, 1.0, 0.1, float('inf'), float('-inf')]))
DOCS = st.recursive(SCALARS, lambda x: st.one_of(st.lists(x, max_size=4), st.dictionaries(KEYS, x, max_size=4)), max_leaves=14)


def session(cx):
    s = mar.shared_session()
    work = pathlib.Path(cx.scratch) / 'work'
    os.chdir(work)
    s.env.dir_state().change_current_dir(work)
    return s


def is_struct(x):
    return type(x).__name__ == 'Struct'


def differs(actual, doc, path='$'):
    """How actual, as parsed by marcel, differs from the document, or None."""
    if type(doc) is dict:
        if not is_struct(actual):
            return f'{path} is a {type(actual).__name__}, not a Struct'
        keys = [k for k, _ in dict.items(vars(actual))]
        if keys != list(doc):
            return f'{path} has members {keys}, expected {list(doc)}'
        if 'items' not in doc and [k for k, _ in actual.items()] != keys:
            return f'{path}.items(): {list(actual.items())}'
        for k, v in doc.items():
            d = differs(actual[k], v, f'{path}[{k!r}]')
            if d:
                return d
            if k.isidentifier() and not k.startswith('__'):
                if getattr(actual, k) is not actual[k]:
                    return f'{path}.{k} is not {path}[{k!r}]'
        return None
    if type(doc) is list:
        if type(actual) is not list:
            return f'{path} is a {type(actual).__name__}, not a list'
        if len(actual) != len(doc):
            return f'{path} has {len(actual)} elements, expected {len(doc)}'
        for i, (a, d) in enumerate(zip(actual, doc)):
            d = differs(a, d, f'{path}[{i}]')
            if d:
                return d
        return None
    if not same(actual, doc) or (type(doc) is float and str(actual) != str(doc)):
        return f'{path} is {actual!r}, expected {doc!r}'
    return None


def containers(doc):
    return 1 + sum(containers(x) for x in (doc.values() if type(doc) is dict else doc)) if type(doc) in (dict, list) else 0


@st.composite
def texts(draw):
    doc = draw(DOCS)
    text = json.dumps(doc, ensure_ascii=draw(st.booleans()), indent=draw(st.sampled_from([None, None, 1, '\t'])),
                      separators=draw(st.sampled_from([None, (',', ':'), (' , ', ' : ')])))
    edits = []
    if draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(text)))
            j = i + draw(st.integers(0, 2))
            text = text[:i] + draw(st.sampled_from(['', ',', '"', '}', ']', '{', '[', '1', ' ', '\\', 'x', '-', '.', ':'])) + text[j:]
    return text


def reference(text):
    try:
        return True, json.loads(text)
    except (ValueError, RecursionError):
        return False, None


@check('parse', texts, quick=2400, thorough=60000, shards=(4, 8), rule='the document has nested containers')
def parse(text, cx):
    """json_parse, read --json, and json_format of the result, against Python's json."""
    s = session(cx)
    ok, doc = reference(text)
    s.set('T', text)
    parsed = s.eval('gen 3 | map (i: (i, json_parse(T)) if i == 1 else (i, 0))')
    cx.true(parsed.killed is None and len(parsed.out) == 3 and parsed.out[0] == (0, 0) and parsed.out[2] == (2, 0), f'json_parse({text!r}): {parsed}')
    x = parsed.out[1]
    cx.label('valid' if ok else 'invalid')
    if not ok:
        cx.true(mar.is_error(x), f'json_parse({text!r}): expected an error, got {x!r}')
    else:
        cx.nontrivial(containers(doc) > 1)
        cx.true(not mar.is_error(x), f'json_parse({text!r}): {x!r}')
        d = differs(x[1], doc)
        cx.true(d is None, f'json_parse({text!r}): {d}')
        formatted = s.eval('gen 1 | map (i: json_format(json_parse(T)))')
        cx.true(formatted.killed is None and len(formatted.values) == 1 and type(formatted.values[0]) is tuple, f'json_format(json_parse({text!r})): {formatted}')
        again = reference(formatted.values[0][0])
        cx.true(again[0] and same(again[1], doc), f'json_format(json_parse({text!r})): {formatted.values[0][0]!r}')
        # Storing and loading. (A dunder member can hide one that pickle needs.)
        if '__' not in text:
            s.eval('env -d JSON' if s.get('JSON') is not None else 'gen 1')
            stored = s.eval('gen 1 | map (i: (i, json_parse(T))) | store JSON')
            loaded = s.eval('load JSON')
            d = differs(loaded.out[0][1], doc) if len(loaded.out) == 1 else str(loaded)
            cx.true(d is None and stored.killed is None, f'{text!r}, stored and loaded: {d}')
        # Every member is reachable by an expression of the language
        path, part = '', doc
        while type(part) in (dict, list) and part:
            key = sorted(part)[len(text) % len(part)] if type(part) is dict else len(text) % len(part)
            part = part[key]
            path += f'.{key}' if type(key) is str and key.isidentifier() and key.isascii() and not keyword.iskeyword(key) and not key.startswith('__') else f'[{key!r}]'
        r = s.eval('gen 1 | map (i: (i, json_parse(T)' + path + '))')
        d = differs(r.out[0][1], part) if len(r.out) == 1 and not r.errors else str(r)
        cx.true(d is None, f'{text!r}: json_parse(T){path}: {d}')
    # Lone surrogates can't be in a (UTF-8) file.
    try:
        data = text.encode()
    except UnicodeEncodeError:
        return
    (pathlib.Path(cx.scratch) / 'work' / 'j.json').write_bytes(data)
    # An array is a row
    r = s.eval('read --json j.json')
    # Line ends are converted when reading text, and so they can be in JSON, between tokens
    ok, doc = reference(data.decode().replace('\r\n', '\n').replace('\r', '\n'))
    if not ok:
        cx.true(r.killed is None and len(r.out) == 1 and len(r.errors) == 1, f'read --json of {text!r}: expected an error, got {r}')
    else:
        cx.true(r.killed is None and len(r.out) == 1 and not r.errors, f'read --json of {text!r}: {r}')
        d = differs(list(r.out[0]) if type(doc) is list else r.out[0][0] if len(r.out[0]) == 1 else r.out[0], doc)
        cx.true(d is None, f'read --json of {text!r}: {d}')


NAMES = st.sampled_from(['a', 'b', 'items', 'x1', 'assign', 'f', 'é', '_p', 'kwargs'])
PYTHON = st.recursive(SCALARS, lambda x: st.one_of(
    st.lists(x, max_size=3).map(lambda v: ('list', v)), st.lists(x, max_size=3).map(lambda v: ('tuple', v)),
    st.dictionaries(KEYS, x, max_size=3).map(lambda v: ('dict', v)), st.dictionaries(NAMES, x, max_size=3).map(lambda v: ('o', v))), max_leaves=12)


def source(v):
    """As an expression of the language, and as a document"""
    if type(v) is not tuple:
        return (repr(v) if type(v) is not float or v == v and abs(v) != float('inf') else f'float("{v}")'), v
    kind, parts = v
    if kind in ('list', 'tuple'):
        parts = [source(x) for x in parts]
        text = ', '.join(p[0] for p in parts)
        return f'[{text}]' if kind == 'list' else f'({text}{"," if len(parts) == 1 else ""})', [p[1] for p in parts]
    parts = {k: source(x) for k, x in parts.items()}
    if kind == 'dict':
        return '{' + ', '.join(f'{k!r}: {p[0]}' for k, p in parts.items()) + '}', {k: p[1] for k, p in parts.items()}
    return 'o(' + ', '.join(f'{k}={p[0]}' for k, p in parts.items()) + ')', {k: p[1] for k, p in parts.items()}


def structs(v):
    if type(v) is not tuple:
        return 0
    return (v[0] == 'o') + sum(structs(x) for x in (v[1].values() if type(v[1]) is dict else v[1]))


@check('format', lambda: PYTHON, quick=1500, thorough=40000, shards=(2, 6), rule='contains o(...)')
def format(v, cx):
    """json_format of what o(...), lists, tuples and dicts build."""
    s = session(cx)
    text, doc = source(v)
    if '\r' in text or '\n' in text or '\ud800' <= max(text) <= '\udfff':
        return
    r = s.eval(f'gen 1 | map (i: (json_format({text})))')
    cx.nontrivial(structs(v) > 0)
    cx.true(r.killed is None and len(r.values) == 1, f'json_format({text}): {r}')
    ok, actual = reference(r.values[0][0])
    cx.true(ok and same(actual, doc), f'json_format({text}): {r.values[0][0]}')
    # The structure itself
    r = s.eval(f'gen 1 | map (i: (i, {text}))')
    cx.true(r.killed is None and len(r.values) == 1, f'{text}: {r}')
    d = members(r.values[0][1], v)
    cx.true(d is None, f'{text}: {d}')
    # Encoded and decoded
    r = s.eval(f'gen 1 | map (i: (i, json_parse(json_format({text}))))')
    d = differs(r.values[0][1], doc) if len(r.values) == 1 and r.killed is None else str(r)
    cx.true(d is None, f'json_parse(json_format({text})): {d}')


def members(x, v):
    if type(v) is not tuple or v[0] != 'o':
        return None
    if not is_struct(x):
        return f'{x!r} is not a Struct'
    for k, m in v[1].items():
        if getattr(x, k) is not x[k]:
            return f'{k}: {getattr(x, k)!r}, {x[k]!r}'
        if type(m) is not tuple and not same(x[k], m):
            return f'{k}: {x[k]!r}'
        d = members(x[k], m)
        if d:
            return d
    return None
