"""C25: host executables receive exactly their arguments and input, and all of their output is delivered."""
import os
import re
import shlex
import sys
import time

import hypothesis.strategies as st

from harness import mar, ops
from harness.core import check, short
from harness.gens import pipelines

SCRIPTS = {
    # Records its arguments
    'showargs': '''printf '%s\\0' "$@" > "$BASE/argv"; printf '%s\\n' "$#"''',
    # Records its input and copies it
    'recorder': '''exec tee "$BASE/stdin"''',
    'sink': '''cat > "$BASE/stdin"; echo $$ > "$BASE/pid"''',
    # Writes pieces of output to stdout and stderr, as told by a file of commands
    'emit': '''. "$BASE/commands"''',
    'endless': '''echo $$ > "$BASE/pid"; while true; do echo line || exit 1; done''',
    'stubborn': '''echo $$ > "$BASE/pid"; trap '' TERM; while read x; do echo "$x"; done; while true; do echo line || exit 1; done''',
    'waits': '''echo $$ > "$BASE/pid"; cat; echo end''',
    'few': '''echo $$ > "$BASE/pid"; head -n "$1"''',
}


def setup(cx):
    base = f'{cx.scratch}/work/c25'
    os.makedirs(f'{base}/bin', exist_ok=True)
    os.makedirs(f'{base}/dir', exist_ok=True)
    for name, text in SCRIPTS.items():
        with open(f'{base}/bin/{name}', 'w') as f:
            f.write(f'#!/bin/sh\nBASE={shlex.quote(base)}\n{text}\n')
        os.chmod(f'{base}/bin/{name}', 0o755)
    for f in ['f1.txt', 'f2.txt', 'g 3.txt', 'é']:
        with open(f'{base}/dir/{f}', 'w'):
            pass
    os.environ['PATH'] = f'{base}/bin:/usr/bin:/bin'


def base(cx):
    return f'{cx.scratch}/work/c25'


def forget(cx, *names):
    for n in names:
        try:
            os.unlink(f'{base(cx)}/{n}')
        except FileNotFoundError:
            pass


def recorded(cx, name):
    try:
        with open(f'{base(cx)}/{name}', 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


# Arguments

SPECIAL = list('\'"\\ ()|<>$#,:=!@{}[]*?~&;`%-+^/\t') + ["''", '""', '\\\\', '\\n', '|)', '(|', '>>', '$HOME', '$(x)', '&&', '-i',
                                                        'é', '中', '\U0001f600', '\xa0']
characters = st.one_of(st.sampled_from('abcxyz0159'), st.sampled_from(SPECIAL), st.sampled_from(SPECIAL),
                       st.characters(codec='utf-8', exclude_categories=['Cc', 'Zl', 'Zp']))
texts = st.lists(characters, max_size=8).map(''.join)
PLAIN = ['-i', '--interactive', '-ii', '-in', '-n', '-rf', '--', '--flag=value', '-', '+x', 'a=b', 'x:y', 'a,b', '1', '-1', '007', '1.50',
         '1e3', 'map', 'gen', 'red', 'bash', 'write', 'PWD', 'HOME', 'True', 'x', '/tmp', './a', 'a/b', '%s', 'x@y', '{}', '[x]', '.']
# Expanded by bash in the current directory
EXPANDED = {'*.txt': ['f1.txt', 'f2.txt', 'g 3.txt'], 'f?.txt': ['f1.txt', 'f2.txt'], '[fg]1*': ['f1.txt'], '{p,q}r': ['pr', 'qr'],
            'nosuch*': ['nosuch*']}


@st.composite
def argument(draw):
    """(text in the command, arguments received)"""
    kind = draw(st.sampled_from(['plain', 'bare', 'single', 'double', 'expanded', 'expression']))
    if kind == 'plain':
        x = draw(st.sampled_from(PLAIN))
        return x, [x]
    if kind == 'expanded':
        x = draw(st.sampled_from(sorted(EXPANDED)))
        return x, EXPANDED[x]
    if kind == 'expression':
        x = draw(st.one_of(st.integers(-3, 99), st.text('abc', min_size=1, max_size=3), st.sampled_from(['-i', '--interactive'])))
        return f'({x!r})', [str(x)]
    value = draw(texts)
    if kind == 'single':
        value = value.replace("'", '')
        return f"'{value}'", [value]
    if kind == 'double':
        return '"' + re.sub(r'([\\"$`])', r'\\\1', value) + '"', [value]
    value = value or 'b'
    return ''.join(c if c.isalnum() else '\\' + c for c in value), [value]


@st.composite
def invocations(draw):
    args = draw(st.lists(argument(), max_size=5))
    return args, draw(st.sampled_from(['direct', 'direct', 'direct', 'direct', 'op', 'command', 'path'])), \
        draw(st.sampled_from(['first', 'last', 'middle', 'args', 'case', 'variable', 'pipe'])), draw(st.sampled_from([' ', ' ', '  ', '\t']))


@check('arguments', invocations, quick=1300, thorough=30000, shards=(3, 8), setup=setup,
       rule='at least two arguments, one of them with characters special to marcel or bash, or like a flag')
def arguments(case, cx):
    """The executable is called once, with the arguments that bash would give it."""
    args, how, where, sep = case
    s = mar.shared_session()
    os.chdir(f'{base(cx)}/dir')
    expected = [x for _, received in args for x in received]
    if how == 'command' or how == 'op' and not all(a in PLAIN or a in EXPANDED for a, _ in args):
        # One argument is a complete command
        s.set('COMMAND', ' '.join(['showargs'] + [shlex.quote(x) for x in expected]))
        call = 'bash (COMMAND)'
    else:
        call = sep.join([{'direct': 'showargs', 'op': 'bash showargs', 'path': f'{base(cx)}/bin/showargs'}[how]] + [a for a, _ in args])
    forget(cx, 'argv')
    text = {'first': call, 'last': f'gen 1 | {call}', 'middle': f'gen 3 | {call} | (x: x)', 'args': f'gen 1 | args (| x: {call} |)',
            'case': f'gen 2 | case (x: x == 1) (| {call} |) | select (x: type(x) is str)', 'variable': call, 'pipe': f'{call} | sort'}[where]
    if where == 'variable':
        s.command(f'p = (| {call} |)')
        text = 'p'
    out, err = s.command(text)
    cx.eq(err, '', f'{text}: stderr')
    argv = recorded(cx, 'argv')
    cx.true(argv is not None, f'{text} ({call}): not executed: {short(out)}')
    argv = argv.decode().split('\0')[:-1]
    if not expected:
        # printf prints the format once even if there are no arguments
        expected = ['']
        cx.eq(out, '0\n', f'{text}: output')
    else:
        cx.eq(out, f'{len(expected)}\n', f'{text}: output')
    cx.eq(argv, expected, f'{text} ({call}): arguments')
    cx.nontrivial(len(args) > 1 and any(not x.isalnum() for x in expected))
    cx.label(how)


# Input

line_texts = st.one_of(st.text(st.characters(codec='utf-8', exclude_characters='\x00'), max_size=8),
                       st.sampled_from(['', ' ', ' a ', '\t', 'a\nb', '\\', "'", '"', '$HOME', '-n', 'é', '0', 'x' * 5000]))
items = st.one_of(line_texts, st.integers(-9, 9), st.floats(allow_nan=False), st.none(), st.booleans(), st.tuples(), st.tuples(line_texts, st.integers(0, 3)),
                  st.lists(st.integers(0, 3), max_size=3), st.tuples(st.lists(st.integers(0, 2), max_size=2)))


@st.composite
def inputs(draw):
    kind = draw(st.sampled_from(['items', 'items', 'items', 'many', 'long']))
    if kind == 'items':
        rows = draw(st.lists(items, max_size=12))
    elif kind == 'many':
        rows = list(range(draw(st.integers(100, 6000))))
    else:
        rows = [c * n for c, n in draw(st.lists(st.tuples(st.sampled_from('aé中'), st.sampled_from([1000, 65535, 65536, 65537, 200000])), min_size=1, max_size=4))]
    errors = draw(st.lists(st.integers(0, max(0, len(rows) - 1)), max_size=2)) if rows else []
    return rows, sorted(set(errors)), draw(st.sampled_from(['recorder', 'recorder', 'sink'])), draw(st.booleans())


def as_line(row):
    if type(row) in (tuple, list):
        row = row[0] if len(row) == 1 else row
    return str(row)


@check('input', inputs, quick=700, thorough=12000, shards=(2, 8), setup=setup,
       rule='at least two items, and more than 64K or an item that is not an alphanumeric string or number')
def receives(case, cx):
    """stdin has exactly one line for each item, and what recorder copies comes back as strings."""
    rows, failing, executable, after = case
    s = mar.shared_session()
    s.set('ROWS', rows)
    s.set('FAILING', failing)
    forget(cx, 'stdin')
    text = (f'gen {len(rows)} | (i: ROWS[i] if i not in FAILING else 1 // 0)' if rows else 'gen 1 | select (x: False)') + f' | {executable}' + (' | (x: x)' if after else '')
    r = s.eval(text)
    cx.eq(r.killed, None, f'{text}: killed')
    cx.eq(r.stderr, '', f'{text}: stderr')
    stdin = recorded(cx, 'stdin')
    cx.true(stdin is not None, f'{text}: not executed')
    passed = [row for i, row in enumerate(rows) if i not in failing]
    data = ''.join(as_line(row) + '\n' for row in passed).encode()
    if stdin != data:
        cx.fail(f'{text}: {len(passed)} items {short(passed)}: stdin has {len(stdin)} bytes, {short(stdin)}, expected {len(data)} bytes {short(data)}')
    cx.eq(len(r.errors), len(failing), f'{text}: errors')
    lines = universal(data.decode()) if executable == 'recorder' else []
    got = [x for x in r.out if not mar.is_error(x)]
    if got != [(x,) for x in lines] and got != lines:
        cx.fail(f'{text}: expected {len(lines)} lines {short(lines)}, got {len(got)} {short(got)}')
    cx.nontrivial(len(passed) > 1 and (len(data) > 65536 or not all(as_line(x).isalnum() for x in passed)))
    if len(data) > 65536:
        cx.label('more than a pipe holds')


def universal(text):
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    if lines[-1] == '':
        lines.pop()
    return lines


# Output

chunk = st.one_of(st.binary(max_size=6), st.sampled_from([b'\n', b'\n\n', b'a', b'line\n', b'\xff\n', 'é'.encode()[:1], 'é'.encode()[1:] + b'x', b'\r\n', b'\r',
                                                          b'  x  \n', b'\\n', b'%s\n', b"'", b'a\tb\n', b'x' * 70000, b'y\n' * 3000]))


@st.composite
def outputs(draw):
    steps = []
    for _ in range(draw(st.integers(0, 7))):
        steps.append(draw(st.one_of(st.tuples(st.just('out'), chunk.map(lambda b: b.replace(b'\0', b''))), st.tuples(st.just('out'), chunk.map(lambda b: b.replace(b'\0', b''))),
                                    st.tuples(st.just('err'), st.sampled_from([b'oops\n', b'', b'no newline', b'\n', b'a\nb\n', b'\xfe\n'])),
                                    st.tuples(st.just('pause'), st.just(b'')), st.tuples(st.just('holder'), st.just(b'')),
                                    st.tuples(st.just('close'), st.sampled_from([b'1', b'2'])), st.tuples(st.just('exit'), st.sampled_from([b'0', b'3'])))))
    return steps, draw(st.sampled_from(['first', 'last', 'unread'])), draw(st.booleans())


@check('output', outputs, quick=500, thorough=12000, shards=(3, 8), setup=setup,
       rule='at least two pieces written, with a pause or another process holding the streams, or no newline at the end, or some stderr')
def delivers(case, cx):
    """Each line of stdout is an item, in order, each line of stderr is an error, whatever the chunks, delays and exit status."""
    steps, where, after = case
    commands, out, err = [], b'', b''
    stdout = stderr = True
    for i, (kind, data) in enumerate(steps):
        if kind in ('out', 'err'):
            with open(f'{base(cx)}/piece{i}', 'wb') as f:
                f.write(data)
            if kind == 'out' and stdout:
                commands.append(f'cat $BASE/piece{i}')
                out += data
            elif kind == 'err' and stderr:
                commands.append(f'cat $BASE/piece{i} >&2')
                err += data
        elif kind == 'pause':
            commands.append('sleep 0.01')
        elif kind == 'holder':
            commands.append('sleep 0.25 &')
        elif kind == 'close':
            commands.append('exec 1>&-' if data == b'1' else 'exec 2>&-')
            stdout, stderr = stdout and data != b'1', stderr and data != b'2'
        elif kind == 'exit':
            commands.append(f'exit {data.decode()}')
            break
    with open(f'{base(cx)}/commands', 'w') as f:
        f.write('\n'.join(commands) + '\n')
    s = mar.shared_session()
    text = {'first': '', 'last': 'gen 3 | ', 'unread': 'gen 30000 | '}[where] + 'emit' + (' | (x: x)' if after else '')
    r = s.eval(text)
    cx.eq(r.killed, None, f'{text}: killed')
    cx.eq(r.stderr, '', f'{text}: stderr')
    lines = universal(out.decode('utf-8', 'surrogateescape'))
    got = [x[0] if type(x) is tuple else x for x in r.out if not mar.is_error(x)]
    if got != lines:
        cx.fail(f'{text}: expected {len(lines)} lines {short(lines)}, got {len(got)} {short(got)}')
    cx.eq([e[1] for e in r.errors], universal(err.decode('utf-8', 'surrogateescape')), f'{text}: errors')
    kinds = [k for k, _ in steps]
    cx.nontrivial(len(commands) > 1 and out and ('pause' in kinds or 'holder' in kinds or err or not out.endswith(b'\n')))
    for k in set(kinds):
        cx.label(k)


# In programs

CATS = ['cat', 'recorder', "bash 'cat'", 'cat -', "bash 'cat | cat'"]


@st.composite
def programs(draw):
    rows, body = draw(pipelines(max_ops=4))
    return rows, body, sorted(draw(st.lists(st.integers(0, len(body)), min_size=1, max_size=2, unique=True))), draw(st.sampled_from(CATS)), \
        draw(st.sampled_from(['top', 'top', 'args', 'variable', 'fork']))


@check('programs', programs, quick=500, thorough=8000, shards=(2, 8), setup=setup,
       rule='at least one operator, and at least one item passes through the executable')
def transparent(case, cx):
    """Passing items through an executable that copies its input, as literals, makes no difference."""
    rows, body, points, cat, where = case
    s = mar.shared_session()
    cli = ops.Cli()
    texts = [cli.source(rows)] + [cli.op(op) for op in body]
    for var, value in cli.vars.items():
        s.set(var, value)
    results = []
    for through in '(*x: x)', f'(*x: repr(x)) | {cat} | (x: eval(x))':
        text = ' | '.join([t + (f' | {through}' if i in points else '') for i, t in enumerate(texts)])
        if where == 'args':
            text = f'gen 1 | args (| z: {text} |)'
        elif where == 'variable':
            s.command(f'p = (| {text} |)')
            text = 'p'
        elif where == 'fork':
            text = f'fork 1 (| {text} |)'
        results.append(s.eval(text))
    a, b = results
    cx.eq(b.killed is None, a.killed is None, f'{text} ({through}): killed: {a.killed} / {b.killed}')
    if a.killed is not None or any(op[0] == 'cast' and 'type' in op[1] for op in body):
        # Output before the failure may differ, and a type can't be passed as text
        cx.label('killed or type')
        return
    if a.errors:
        # Errors do not pass through the executable, and so they may be ahead of items
        cx.label('errors')
        cx.eq(sorted(e[1] for e in b.errors), sorted(e[1] for e in a.errors), f'{text} ({through}): errors')
    cx.eq([repr(x) for x in b.values], [repr(x) for x in a.values], f'{text} ({through}; {cli.vars})')
    cx.nontrivial(body and a.values)
    cx.label(cat)


@st.composite
def positions(draw):
    return draw(st.integers(2, 400)), draw(st.integers(1, 3)), draw(st.lists(st.sampled_from(['cat', 'recorder']), min_size=1, max_size=2))


@check('positions', positions, quick=80, thorough=1500, shards=(1, 4), setup=setup, rule='at least 100 items')
def pos(case, cx):
    """pos() counts each operator's own input on both sides of an executable."""
    n, step, cats = case
    s = mar.shared_session()
    text = f'gen {n} | (x: (x, pos()))' + ''.join(f' | {c} | (x: (x, pos()))' for c in cats)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        r = s.eval(text)
    finally:
        sys.setswitchinterval(interval)
    cx.eq((r.killed, r.errors), (None, []), f'{text}: outcome')
    expected = []
    for i in range(n):
        x = (i, i)
        for _ in cats:
            x = (str(x), i)
        expected.append(x)
    wrong = [(a, b) for a, b in zip(expected, r.out) if a != b]
    cx.true(not wrong and len(r.out) == n, f'{text}: {len(r.out)} items, expected and actual: {short(wrong)}')
    cx.nontrivial(n >= 100)


# Failures

@st.composite
def failures(draw):
    kind = draw(st.sampled_from(['endless', 'stubborn', 'waits', 'few', 'after', 'before', 'both']))
    return kind, draw(st.integers(0, 4)), draw(st.sampled_from([1, 5, 300, 20000])), draw(st.booleans())


FATAL = "difference (| gen 1 |)"   # Fails on an item that isn't hashable


def wait_gone(pid):
    deadline = time.time() + 3
    while time.time() < deadline:
        try:
            with open(f'/proc/{pid}/stat') as f:
                if f.read().rsplit(')', 1)[1].split()[0] == 'Z':
                    return True
        except (FileNotFoundError, ProcessLookupError):
            return True
        time.sleep(0.005)
    return False


@check('failures', failures, quick=250, thorough=4000, shards=(2, 8), setup=setup, timeout=30,
       rule='the command fails, or the executable stops reading before the end of its input')
def fails(case, cx):
    """A command that fails on either side of an executable, and an executable that stops reading, end the command but not
    the session, and leave no process behind."""
    kind, k, n, nested = case
    s = mar.shared_session()
    forget(cx, 'pid')
    poison = f'(x: (x, [1]) if x == {k} else x) | {FATAL} | (x: x)'
    late = f'(x: (x, [1]) if pos() == {k} else x) | {FATAL}'
    text = {'endless': f'endless | {late}', 'stubborn': f'gen {n} | stubborn | {late}', 'waits': f'gen {n} | {poison} | waits',
            'few': f'gen {n} | few {k + 1}', 'after': f'gen {n} | waits | {late}', 'before': f'gen {n} | {poison} | waits | (x: x)',
            'both': f'gen {n} | {poison} | waits | {late}'}[kind]
    if nested:
        text = f'gen 1 | args (| z: {text} |)'
    start = time.time()
    out, err = s.command(text)
    cx.true(time.time() - start < 20, f'{text}: took {time.time() - start:.0f}s')
    fatal = kind in ('endless', 'stubborn') or kind in ('waits', 'before', 'both') and k < n or kind == 'after' and k < n + 1
    if kind == 'few':
        cx.eq((out, err), (''.join(f'{i}\n' for i in range(min(n, k + 1))), ''), f'{text}: output')
    elif fatal:
        cx.true('is not hashable' in err and err.count('\n') == 1, f'{text}: expected the error only, got {short(err)}')
        # Items processed before the failure may or may not have been printed, but nothing else
        cx.true(len(out) < 200 or kind in ('waits', 'before'), f'{text}: output {short(out)}')
    else:
        cx.eq(err, '', f'{text}: stderr')
    pid = recorded(cx, 'pid')
    if pid and pid.strip():
        cx.true(wait_gone(int(pid)), f'{text}: process {int(pid)} still runs')
        cx.label('process ended')
    cx.eq(s.command('gen 3 | cat'), ('0\n1\n2\n', ''), f'{text}: the next command')
    cx.nontrivial(fatal or kind == 'few' and n > k + 1)
    cx.label(kind)
