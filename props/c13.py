"""C13: failing tuples become errors in place, and affect nothing else."""
import os

import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check

MIXED = st.one_of(ops.ints, ops.ints, st.sampled_from(['', 'a', '10', 'x y']))
FAILING_OPS = {
    'map': st.tuples(st.just('map'), st.sampled_from(['fail3', 'failpos', 'failint'])),
    'select': st.tuples(st.just('select'), st.sampled_from(['fail3', 'failint'])),
    'window': st.tuples(st.just('window'), st.just('p'), st.sampled_from(['fail3', 'failint'])),
    'sort': st.tuples(st.just('sort'), st.sampled_from(['fail3', 'failint'])),
    'squish': st.tuples(st.just('squish'), st.sampled_from(['+', 'sub', 'max'])),
    'cast': st.tuples(st.just('cast'), st.lists(st.sampled_from(['int', 'float', 'str']), min_size=1, max_size=3)),
    'red': st.tuples(st.just('red'), st.booleans(),
                     st.lists(st.sampled_from(['+', 'sub', 'max', '.', 'count', 'concat']), min_size=1, max_size=2)),
}
PLAIN = ['head', 'tail', 'reverse', 'window', 'map0', 'select', 'keysort']
ops.OPS['keysort'] = st.tuples(st.just('sort'), st.sampled_from(['repr', 'len', 'mod']))


@st.composite
def any_op(draw, failing, depth=1):
    kind = draw(st.sampled_from(['case', 'args', 'filter', 'union'] + ['failing'] * 5 if failing else ['plain']))
    if kind == 'plain':
        return draw(st.one_of(*[ops.OPS[n] for n in PLAIN]))
    if kind == 'failing' or depth == 0:
        return draw(st.one_of(*[FAILING_OPS[n] for n in sorted(FAILING_OPS)]))
    if kind == 'filter':
        rows = draw(ops.rows(kinds='i', max_size=4, min_width=1, lists=False))
        return 'filter', draw(st.sampled_from(['keep', 'discard'])), draw(st.sampled_from(['fail3', 'failint'])), (rows, [])
    if kind == 'union':
        return 'union', [(draw(ops.rows(kinds='is', max_size=4)), [draw(any_op(True, 0))])]
    body = draw(st.lists(st.booleans().flatmap(lambda f: any_op(f, depth - 1)), min_size=1, max_size=2))
    if kind == 'case':
        # Operators which emit some of their output at once and some at the end: not modelled inside case
        body = [op for op in body if op[0] not in ('window', 'tail', 'case', 'args', 'union')] or [('map', 'fail3')]
        default = draw(st.one_of(st.none(), st.just([('map', 'id')]), st.just([('map', 'fail3')])))
        return 'case', [(draw(st.sampled_from(['even', 'fail3', 'failint', 'wide'])), body)], default
    all = draw(st.integers(0, 3)) == 0
    return 'args', all, 1 if all else draw(st.integers(1, 2)), (draw(st.integers(1, 3)), body)


@st.composite
def programs(draw):
    element = draw(st.sampled_from([MIXED, st.tuples(MIXED), st.tuples(MIXED, MIXED), st.tuples(ops.ints, MIXED),
                                    st.lists(MIXED, max_size=2)]))
    rows = draw(st.lists(element, min_size=draw(st.integers(0, 5)), max_size=9))
    n = draw(st.integers(1, 4))
    at = draw(st.integers(0, n - 1))
    return rows, [draw(any_op(i == at or draw(st.integers(0, 3)) == 0)) for i in range(n)]


def errors(events):
    return sum(isinstance(x, ops.Err) for x in events)


@check('errors', programs, quick=9000, thorough=150000, shards=(5, 8),
       rule='at least one error, and at least one tuple that is not an error, reach the end')
def in_place(case, cx):
    expected = ops.check_cli(mar.shared_session(), case, cx)
    if expected is not None:
        n = errors(expected)
        cx.nontrivial(0 < n < len(expected))
        if n > 1:
            cx.label('several errors')


@st.composite
def metamorphic(draw):
    """A stream of numbers, some of them poisoned; the operators do not fail on others."""
    n = draw(st.integers(1, 10))
    bad = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    rest = [draw(st.one_of(*[ops.OPS[k] for k in ['head', 'tail', 'reverse', 'sort', 'window', 'unique', 'map0', 'select']]))
            for _ in range(draw(st.integers(0, 4)))]
    return draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)), bad, rest, draw(st.sampled_from(sorted(POISON)))


# Ways of failing, and the exceptions they cause
POISON = {'1 // 0': 'ZeroDivisionError', "File('nosuch').size": 'nosuch does not exist', "int('x')": 'ValueError', 'undefined': 'NameError',
          '{}[i]': 'KeyError', '[][i]': 'IndexError', 'i.nosuch': 'AttributeError', 'next(iter(()))': 'StopIteration',
          "open('nosuch')": 'FileNotFoundError', "'\\udcff'.encode()": 'UnicodeEncodeError', "__import__('nosuch')": 'ModuleNotFoundError',
          '(lambda f: f(f))(lambda f: f(f))': 'RecursionError', 'len(i)': 'TypeError', 'print_to_nowhere(i)': 'NameError',
          '(lambda: i)(1)': 'TypeError', '2.0 ** 100000': 'OverflowError', "eval('(')": 'SyntaxError',
          '[x for x in iter(iter, None)][0] if False else next(x for x in [])': 'StopIteration'}


@check('absent', metamorphic, quick=2500, thorough=30000, shards=(2, 4),
       rule='at least one poisoned and one other tuple, and at least one further operator')
def absent(case, cx):
    """The tuples of the stream with poisoned inputs are those of the stream without these inputs: no model involved."""
    values, bad, rest, poison = case
    s = mar.shared_session()
    s.set('VALUES', values)
    s.set('BAD', bad)
    s.set('GOOD', [v for v, b in zip(values, bad) if not b])
    tail = ''.join([' | ' + ops.Cli().op(op) for op in rest])
    poisoned = s.eval(f'gen {len(values)} | map (i: ({poison}) if BAD[i] else VALUES[i]){tail}')
    clean = s.eval(f'gen {max(1, len(s.get("GOOD")))} | select (i: i < len(GOOD)) | map (i: GOOD[i]){tail}')
    cx.eq(poisoned.killed is None, clean.killed is None, 'killed')
    cx.eq(poisoned.values, clean.values, f'{tail}: tuples')
    if poisoned.killed is None:
        cx.eq(len(poisoned.errors), sum(bad), f'{tail}: number of errors')
        want = [f'({i},)' for i, b in enumerate(bad) if b]
        for w, e in zip(want, poisoned.errors):
            cx.true(e[1].startswith('Running map(') and f' on {w}:' in e[1] and POISON[poison] in e[1],
                    f'expected an error about input {w}, got {e[1]}')
    cx.nontrivial(any(bad) and not all(bad) and rest)


def rendered(x):
    if type(x) in (tuple, list):
        x = x[0] if len(x) == 1 else x
    return str(x)


@check('printed', programs, quick=2500, thorough=20000, shards=(2, 4), rule='at least one error and one tuple are printed')
def printed(case, cx):
    """At the terminal: one line per item, in order, an error line for each error."""
    s = mar.shared_session()
    text, r = ops.run_cli(s, case)
    if r.killed is not None or ops.bag_only(case[1]):
        cx.label('skipped')
        return
    out, err = s.command(text)
    expected = ''.join([('Error: ' + x[1] if mar.is_error(x) else rendered(x)) + '\n' for x in r.out])
    cx.eq(out, expected, f'{text}: printed output')
    cx.eq(err, '', f'{text}: stderr')
    cx.nontrivial(bool(r.errors) and bool(r.values))


@st.composite
def unwritable(draw):
    """Items and errors arriving at a write, of which some can't be written to the target."""
    items = draw(st.lists(st.sampled_from(['ok', 'bad', 'bad', 'fail']), min_size=1, max_size=8))
    kind = draw(st.sampled_from(['surrogate', 'csv', 'tsv', 'redirect', 'append', 'format', 'full', 'fullcsv', 'fullpickle']))
    return items, kind, draw(st.booleans())


TARGETS = {'surrogate': 'write out.txt', 'csv': 'write --csv out.txt', 'tsv': 'write -t out.txt', 'redirect': '> out.txt',
           'append': '>> out.txt', 'format': "write -f 'a {0.real}' out.txt", 'full': '> /dev/full',
           'fullcsv': 'write -c /dev/full', 'fullpickle': 'write -p /dev/full'}


@check('unwritable', unwritable, quick=1000, thorough=15000, shards=(2, 4),
       rule='write ends the pipeline, and cannot write at least one item')
def cannot_write(case, cx):
    """Items which write cannot write are reported, one error for each, and passed on; everything else is written."""
    items, kind, last = case
    s = mar.shared_session()
    full = kind.startswith('full')
    bad = '-' if kind == 'format' else '\udcff'
    s.set('ITEMS', [(None if x == 'fail' else 1 if kind == 'format' and x == 'ok' else bad if x == 'bad' else 'x') for x in items])
    os.chdir(f'{cx.scratch}/work')
    open('out.txt', 'w').close()
    s.set('POS', list(range(len(items))))
    target = TARGETS[kind]
    redirect = target.startswith('>')
    source = f'gen {len(items)} | (i: ITEMS[i] if ITEMS[i] is not None else 1 // 0)'
    downstream = '' if last or redirect else ' | (x: (0, 0))'
    out, err = s.command(f'{source} {target if redirect else "| " + target}{downstream}')
    cx.eq(err, '', 'stderr')
    lines = out.splitlines()
    want = []
    for x in items:
        failed = x == 'bad' and not full or full and kind != 'fullpickle'
        if failed:
            want.append('Error')
        if downstream and x != 'fail':
            want.append('(0, 0)')
    if kind == 'fullpickle':
        # The output is buffered. Any string can be pickled.
        want.append('Error')
    cx.eq([l if l == '(0, 0)' else l[:5] for l in lines], want, f'{source} {target}{downstream}: lines printed')
    if not full:
        with open('out.txt') as f:
            written = f.read().splitlines()
        good = [x for x in items if x != 'bad']
        cx.eq([x[:5] == 'Error' for x in written], [x == 'fail' for x in good], 'lines in the file that are errors')
    cx.nontrivial((last or redirect) and any(l.startswith('Error') for l in lines))


BAD = st.sampled_from([('1/0', 'division by zero'), ('undefined', "name 'undefined' is not defined"), ("int('x')", 'invalid literal'),
                       ("[1][5]", 'index out of range'), ("{}['k']", "'k'"), ("File('nosuch').size", 'does not exist'), ('(1).y', "has no attribute 'y'")])
AROUND = st.sampled_from(['{} ', 'gen 3 | {}', 'gen 3 | (x: (x, x)) | {}', '{} | (x: x)', 'gen 2 | {} | reverse | red . +', '{} > out.txt',
                          'gen 3 | {} | write', 'gen 3 | {} | case (x: True) (| head 1 |)', 'gen 1 | (x: 1/0) | {}'])


@st.composite
def uncomputable(draw):
    bad, message = draw(BAD)
    if draw(st.integers(0, 3)) == 0:
        return f'v = ({bad})', message
    around = draw(AROUND)
    op = draw(st.sampled_from(['gen ({})', 'gen 1 ({})', 'gen -p 3 ({})', 'read ({})', 'timer ({})'] if around.startswith('{}') else
                              ['head ({})', 'tail ({})', 'window -d ({})', 'window -o ({})']))
    return around.format(op.format(bad)), message


@check('arguments', uncomputable, quick=1500, thorough=20000, shards=(2, 4), rule='every case: an argument cannot be computed')
def arguments(case, cx):
    """A command with an argument or value that cannot be computed: no effect, and one message."""
    text, message = case
    s = mar.shared_session()
    os.chdir(f'{cx.scratch}/work')
    if os.path.exists('out.txt'):
        os.unlink('out.txt')
    s.env.setvar('v', 'before')
    out, err = s.command(text)
    cx.eq(out, '', f'{text}: stdout')
    cx.true(err.count('\n') == 1 and message in err, f'{text}: stderr is {err!r}')
    cx.eq(s.get('v'), 'before', f'{text}: the variable')
    cx.nontrivial()


# Values whose string form can't be computed

class Unprintable(object):
    def __init__(self, x, error):
        self.x = x
        self.error = error

    def __repr__(self):
        raise self.error(f'unprintable {self.x}')

    def __eq__(self, other):
        return type(other) is Unprintable and self.x == other.x

    def __hash__(self):
        return self.x


UNPRINTABLE_OPS = {
    'none': ('', True),
    'map': (' | map (*x: x)', True),
    'wrapped': (' | map (*x: (1, x))', True),
    'listed': (' | map (*x: [x])', True),
    'select': (' | select (*x: True)', True),
    'tail': (' | tail 100', True),
    'reverse': (' | reverse | reverse', True),
    'args': (' | args --all (| x: gen 100 | select (i: i < len(x)) | map (i: x[i]) |)', True),
    'case': (' | case (*x: True) (| map (*x: x) |)', True),
    'fails': (' | map (*x: x if len(x) == 1 else 1 / 0)', None),
    'select fails': (' | select (*x: len(x) == 1 or 1 / 0)', None),
    'window': (' | window (*x: True)', True),
    'stored': (' | store V', False),
    'trace': ('', True),
}


@check('unprintable', lambda: st.tuples(st.lists(st.tuples(st.booleans(), st.booleans()), min_size=1, max_size=7), st.sampled_from(sorted(UNPRINTABLE_OPS)),
                                        st.sampled_from([ValueError, AttributeError, RecursionError, KeyError]), st.booleans()),
       quick=300, thorough=4000, shards=(2, 4), rule='a value that cannot be printed, and one that can')
def unprintable(case, cx):
    """Printing a value fails: an error in its place, and everything else is unaffected."""
    values, op, error, format = case
    s = mar.Session()
    rows = [((Unprintable(i, error) if bad else f'v{i}'),) + ((i,) if wide else ()) for i, (bad, wide) in enumerate(values)]
    s.set('ROWS', rows)
    text, printed = UNPRINTABLE_OPS[op]
    if op == 'trace':
        s.command(f'trace -f {s.home}/trace')
    command = f'gen {len(rows)} | map (i: ROWS[i])' + text + (' | write -c' if format and printed else '')
    try:
        out, err = s.command(command)
    except Exception as e:
        cx.true(False, f'{command} on {values}: {type(e)} ended the command: {e}')
    lines = out.split('\n')[:-1]
    what = f'{command} on {values}: {out!r} {err!r}'
    cx.eq(err, '', what)
    if not printed:
        fails = 'fails' in op
        lines = [] if op == 'stored' else lines
        if fails:
            expected = [bad or wide for bad, wide in values]
            cx.eq([x.startswith('Error: ') for x in lines], expected, what)
    else:
        cx.eq([x.startswith('Error: ') for x in lines], [bad for bad, wide in values], what)
    for i, (line, (bad, wide)) in enumerate(zip(lines, values)):
        cx.true(line.startswith('Error: ') or f'v{i}' in line, f'{what}: line {i}')
        cx.true(not bad or 'unprintable' in line or op in ('fails', 'select fails'), f'{what}: line {i} does not tell what failed')
    cx.label(op)
    cx.eq(s.command('(1)'), ('1\n', ''), f'after {command}')
    cx.nontrivial(len(set(bad for bad, _ in values)) == 2)
