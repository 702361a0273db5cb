"""C32: scripts run exactly their commands, with exactly their arguments."""
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys

import hypothesis.strategies as st

from harness import mar
from harness.core import check, short

CODES = re.compile('\033\\[[0-9;]*m')

# Commands

WORD = st.one_of(st.sampled_from(['a', 'b c', 'x#y', '# no comment', 'é中', '$x', '|', '(', "it's", '  ', '-', '!', '*', '\\n']), st.text(st.characters(blacklist_categories=['Cs', 'Cc', 'Zl', 'Zp']), max_size=5))
STRING = WORD.map(lambda x: "'" + x.replace("'", '').replace('\\', '') + "'")
NAME = st.sampled_from(['v', 'w', 'long_name', 'é'])
SCALAR = st.one_of(st.integers(0, 9).map(lambda x: f'({x})'), STRING)


@st.composite
def commands(draw):
    kind = draw(st.sampled_from(['gen', 'gen', 'string', 'string', 'assign', 'assign', 'use', 'use', 'pipeline', 'call', 'comment', 'comment', 'error', 'error', 'bad', 'cd', 'pwd', 'write', 'read', 'store', 'delete', 'import', 'nested', 'dq', 'ws']))
    if kind == 'gen':
        return f'gen {draw(st.integers(1, 4))}{draw(st.sampled_from(["", " 5", " -1"]))} | map (x: (x, x + 1)){draw(st.sampled_from(["", " | reverse", " | red + +", " | (a, b: a * b)"]))}'
    if kind == 'string':
        return f'({draw(STRING)})' + draw(st.sampled_from(['', '  # comment', ' # | gen 3']))
    if kind == 'dq':
        return f'gen 1 | (x: "{draw(st.sampled_from(["a b", "#", "tab", "x  y"]))}")'
    if kind == 'assign':
        return f'{draw(NAME)}{draw(st.sampled_from([" = ", "=", "  =  "]))}{draw(SCALAR)}'
    if kind == 'use':
        return f'({draw(NAME)})'
    if kind == 'pipeline':
        return f'p = (| n, m: gen (n) (m) | (x: (m, x)) |)'
    if kind == 'call':
        return f'p ({draw(st.integers(1, 3))}) ({draw(NAME)})'
    if kind == 'comment':
        return draw(st.sampled_from(['#', '# gen 3', '  # comment', '#!/usr/bin/env marcel'])) + draw(st.sampled_from(['', ' x', " 'open", ' (|']))
    if kind == 'error':
        return draw(st.sampled_from(['gen 3 | (x: 1 / (x - 1))', '(undefined_variable)', '(1/0)', "gen 2 | (x: open('/nonexistent'))"]))
    if kind == 'bad':
        return draw(st.sampled_from(['gen x', 'no_such_command', 'gen 3 |', '| gen 3', "('open", 'gen 3 | | gen 3', 'cd /nonexistent', 'head', 'gen 3 | red', '(| gen 3', 'v =', 'ws -o nonexistent']))
    if kind == 'cd':
        return 'cd ' + draw(st.sampled_from(['.', '..', 'd', 'd/e', '~', '']))
    if kind == 'pwd':
        return draw(st.sampled_from(['pwd', 'dirs', 'pushd d', 'popd']))
    if kind == 'write':
        return f'gen 3 | write {draw(st.sampled_from(["", "--append "]))}file{draw(st.integers(1, 2))}'
    if kind == 'read':
        return f'read file{draw(st.integers(1, 2))}'
    if kind == 'store':
        return draw(st.sampled_from(['gen 3 >', "(('x', 1)) >>", 'gen 3 >$', "(('x', 1)) >>$"])) + ' ' + draw(st.sampled_from(['s', 't']))
    if kind == 'delete':
        return f'env -d {draw(st.sampled_from(["v", "w", "s", "p"]))}'
    if kind == 'import':
        return draw(st.sampled_from(['import math', 'import math sqrt root', '(math.pi)', '(root(4))', 's <', 's < | red +', 's <$', 's <$ | red +']))
    if kind == 'ws':
        return draw(st.sampled_from(['ws -n w1', 'ws -n w2', 'ws -o w1', 'ws -c', 'ws']))
    return f'gen 3 | case (x: x > 1) (| map (x: ({draw(STRING)}, x)) |) (| (x: -x) |)'


@st.composite
def layouts(draw, command):
    """The command as lines of a script"""
    out = ''
    if draw(st.integers(0, 3)) == 0:
        points = sorted(draw(st.sets(st.integers(1, max(1, len(command) - 1)), max_size=3)))
        pieces = [command[i:j] for i, j in zip([0] + points, points + [len(command)])]
        # Lines consisting of whitespace are ignored. Whether a line ending in two backslashes is continued is not specified.
        if all(x.strip() and not x.endswith('\\') for x in pieces):
            return '\\\n'.join(pieces)
    return command


@st.composite
def scripts(draw):
    listed = draw(st.lists(commands(), min_size=3, max_size=14))
    listed = [c for c in listed if not c.endswith('\\')]
    text = ''
    for c in listed:
        text += draw(st.sampled_from(['', '', '', '\n', '\n\n', '  \n', '\t\n']))
        text += draw(layouts(c))
        text += '\n'
    if draw(st.booleans()):
        text = text[:-1]
    mode = draw(st.sampled_from(['script', 'piped', 'heredoc', 'heredoc', 'bin']))
    args = draw(st.lists(WORD.map(lambda x: x.lstrip('-')), max_size=4))
    return listed, text, mode, args


def python():
    return sys.executable


def timeless(text):
    """Without the times of directories, process ids in the paths of reservoirs, and addresses of objects"""
    text = re.sub(r'\d{4} \w{3} \d\d \d\d:\d\d:\d\d', 'T', text)
    text = re.sub(r'reservoirs/\d+\.', 'reservoirs/N.', text)
    return re.sub(r'\bat 0x[0-9a-f]+', 'at 0x', text)


def repo():
    import marcel
    return os.path.dirname(os.path.dirname(os.path.abspath(marcel.__file__)))


def directory(cx):
    d = f'{cx.scratch}/work/scripts'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f'{d}/d/e')
    return d


def run_marcel(cx, home, d, mode, text, args, body=None):
    env = {'HOME': home, 'PATH': os.path.dirname(python()) + ':/usr/bin:/bin', 'PYTHONPATH': repo(), 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1'}
    path = f'{cx.scratch}/work/the script'
    with open(path, 'w', newline='') as f:
        f.write(text)
    command = [python(), '-m', 'marcel.main']
    kw = dict(stdin=subprocess.DEVNULL)
    if mode == 'heredoc':
        kw = dict(input=text.encode())
    else:
        if mode == 'bin':
            command = ['bash', f'{repo()}/bin/marcel']
        if mode == 'piped':
            kw = dict(input=b'gen 3\n')
        command += [path] + args
    r = subprocess.run(command, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **kw)
    return CODES.sub('', r.stdout.decode()), CODES.sub('', r.stderr.decode()), r.returncode, path


@check('scripts', scripts, quick=130, thorough=3000, shards=(6, 8), timeout=120, rule='at least three commands that print something, or change the state of the session')
def running(case, cx):
    listed, text, mode, args = case
    home = f'{cx.scratch}/home'
    d = directory(cx)
    os.chdir(d)
    out, err = '', ''
    s = mar.Session(home=home)
    try:
        printed = 0
        for c in listed:
            o, e, _ = s.switch(c)
            out += o
            err += e
            printed += bool(o) or bool(e) or c.startswith('cd') or '=' in c
        s.close()
    finally:
        os.chdir(f'{cx.scratch}/work')
    d = directory(cx)
    mar.Session(home=home).close()
    os.chdir(f'{cx.scratch}/work')
    actual, errors, rc, _ = run_marcel(cx, home, d, mode, text, args)
    out, err = timeless(CODES.sub('', out)), timeless(CODES.sub('', err))
    actual, errors = timeless(actual), timeless(errors)
    what = f'{mode} {text!r}'
    cx.true(actual == out, f'{what}: expected output {out!r}, got {actual!r}; {errors!r}')
    cx.true(errors == err, f'{what}: expected error messages {err!r}, got {errors!r}')
    cx.label(mode)
    cx.nontrivial(printed > 2)


# parse_args

FLAG_NAMES = [('-a', '--all'), ('-b', None), (None, '--count'), ('-n', '--n'), ('-x', '--xyz'), ('-é', '--long-name')]


@st.composite
def declarations(draw):
    names = draw(st.lists(st.sampled_from(FLAG_NAMES), max_size=4, unique=True))
    decls = []
    for i, (short_flag, long_flag) in enumerate(names):
        kind = draw(st.sampled_from(['flag', 'int_flag', 'boolean_flag']))
        flags = [f for f in (short_flag, long_flag) if f]
        if draw(st.booleans()):
            flags.reverse()
        default = draw({'flag': st.sampled_from([None, None, 'd', '']), 'int_flag': st.sampled_from([None, 0, 5]), 'boolean_flag': st.sampled_from([None, False, True])}[kind])
        required = kind != 'boolean_flag' and draw(st.integers(0, 3)) == 0
        decls.append((f'arg_{i}', kind, tuple(flags), default, required))
    if draw(st.integers(0, 4)):
        decls.insert(draw(st.integers(0, len(decls))), ('rest', 'anon', (), None, False))
    args = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.sampled_from(['flag', 'flag', 'flag', 'value', 'value', 'odd']))
        flagged = [x for x in decls if x[2]]
        if k == 'flag' and flagged:
            _, kind, flags, _, _ = draw(st.sampled_from(flagged))
            args.append(draw(st.sampled_from(flags)))
            if kind != 'boolean_flag' and draw(st.integers(0, 9)):
                args.append(draw(st.sampled_from(['12', '0', '007', ' 5']) if kind == 'int_flag' and draw(st.integers(0, 9)) else ARGUMENT))
        elif k == 'odd':
            args.append(draw(st.sampled_from(['-', '--', '-q', '--al', '-ab', '--all=5', '-5', '--N'])) if draw(st.integers(0, 3)) == 0 else draw(ARGUMENT))
        else:
            args.append(draw(ARGUMENT))
    return decls, args


ARGUMENT = st.one_of(st.sampled_from(['', 'a', 'a b', "it's", '"', '*', '$HOME', '5', 'é', '~', '\\', '#', ';', '\n', '=']), st.text(st.characters(blacklist_categories=['Cs'], blacklist_characters='\0\r'), max_size=4)).filter(lambda x: not x.startswith('-'))


def model_args(decls, args):
    """The values of the variables, or None if the command line has to be rejected, or 'any' if that isn't specified."""
    values = {name: ([] if kind == 'anon' else default) for name, kind, flags, default, required in decls}
    by_flag = {f: x for x in decls for f in x[2]}
    for name, kind, flags, default, required in decls:
        if kind == 'boolean_flag' and default is None:
            values[name] = False
        if kind == 'int_flag' and default is None:
            values[name] = 0
    supplied = set()
    positional = []
    queue = list(args)
    while queue:
        a = queue.pop(0)
        if a.startswith('-'):
            if a not in by_flag:
                return None
            name, kind, _, _, _ = by_flag[a]
            if kind == 'boolean_flag':
                values[name] = True
            else:
                if not queue or queue[0].startswith('-'):
                    return None
                v = queue.pop(0)
                if kind == 'int_flag':
                    try:
                        v = int(v)
                    except ValueError:
                        return None
                values[name] = v
            supplied.add(name)
        else:
            positional.append(a)
    if any(required and name not in supplied for name, kind, flags, default, required in decls):
        return None
    if 'rest' in values:
        values['rest'] = positional
    elif positional:
        return 'any'
    return values


def declare(decls):
    parts = []
    for name, kind, flags, default, required in decls:
        inside = [repr(f) for f in flags]
        if default is not None:
            inside.append(f'default={default!r}')
        if required:
            inside.append('required=True')
        parts.append(f'{name}={kind}({", ".join(inside)})')
    return ''.join(', ' + x for x in parts)


@check('arguments', declarations, quick=2500, thorough=100000, shards=(2, 6), rule='at least two arguments, and the command line is accepted')
def arguments(case, cx):
    decls, args = case
    s = mar.shared_session()
    expected = model_args(decls, args)
    import marcel.exception
    for name, *_ in decls:
        try:
            s.env.delete(name)
        except Exception:
            pass
    saved = sys.argv
    sys.argv = ['/somewhere/marcel/main.py', 'script'] + args
    err = io.StringIO()
    what = f'{declare(decls)[2:]} for {args}'
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            try:
                s.main.parse_and_run_command(f"(parse_args('the usage'{declare(decls)}))")
                rejected = None
            except marcel.exception.KillShellException as e:
                rejected = str(e)
    finally:
        sys.argv = saved
    if expected == 'any':
        cx.nontrivial(False)
        return
    if expected is None:
        cx.true(rejected is not None, f'{what}: should have been rejected')
        cx.true('the usage' in err.getvalue(), f'{what}: usage not shown, only {err.getvalue()!r}')
        cx.label('rejected')
        return
    cx.true(rejected is None, f'{what}: rejected: {rejected}')
    actual = {name: s.get(name) for name, *_ in decls}
    cx.eq(actual, expected, what)
    cx.eq(s.get('ARGV'), ['script'] + args, f'{what}: ARGV')
    cx.nontrivial(len(args) > 1)


@check('command lines', declarations, quick=60, thorough=2000, shards=(2, 4), timeout=120, rule='at least two arguments, and the command line is accepted')
def command_lines(case, cx):
    """Through the shell script bin/marcel"""
    decls, args = case
    expected = model_args(decls, args)
    home = f'{cx.scratch}/home'
    d = directory(cx)
    mar.Session(home=home).close()
    os.chdir(f'{cx.scratch}/work')
    names = [x[0] for x in decls]
    text = f"start = (parse_args('the usage'{declare(decls)}))\n" + ''.join(f'(ascii({n}))\n' for n in names) + '(ascii(ARGV))\n'
    out, err, rc, path = run_marcel(cx, home, d, 'bin', text, args)
    what = f'{declare(decls)[2:]} for {args}'
    if expected == 'any':
        return
    if expected is None:
        cx.true('the usage' in err and out == '', f'{what}: should have been rejected, but {out!r}, {err!r}')
        return
    cx.eq(out, ''.join(ascii(expected[n]) + '\n' for n in names) + ascii([path] + args) + '\n', f'{what}: output, {err!r}')
    cx.nontrivial(len(args) > 1)


# Startup scripts

@st.composite
def startups(draw):
    scripts = {ws: draw(st.lists(st.tuples(st.integers(10, 99), st.sampled_from(['\n', '\n\n', '\n# x\n', '\\\n'])), max_size=3)) for ws in ['', 'w1', 'w2']}
    steps = draw(st.lists(st.sampled_from(['open w1', 'open w2', 'close', 'var', 'gen', 'fail', 'modify', 'modify']), min_size=1, max_size=8))
    how = draw(st.sampled_from(["sv = 'changed'", 'env -d sv', 'sv = (| gen 1 |)', 'import --as sv math pi']))
    return scripts, steps + ['var'], how


@check('startup', startups, quick=40, thorough=800, shards=(2, 4), timeout=120, rule='a workspace with a startup script is opened by the script')
def startup(case, cx):
    """Opening a workspace runs what its startup.py asks for, before the next command of the script."""
    scripts, steps, modification = case
    home = f'{cx.scratch}/home'
    d = directory(cx)
    s = mar.Session(home=home)
    s.switch('ws -n w1')
    s.switch('ws -n w2')
    s.switch('ws -c')
    s.close()
    os.chdir(f'{cx.scratch}/work')
    import marcel.locations
    import marcel.object.workspace
    W = marcel.object.workspace.Workspace
    locations = marcel.locations.Locations()
    for ws, listed in scripts.items():
        path = locations.config_ws_startup(W(ws) if ws else W.default())
        with open(path, 'w') as f:
            f.write(f'sv = {ws!r}\n')
            for n, separator in listed:
                piece = f'gen 1 {n}{separator}' + (' | (x: x)' if separator.startswith('\\') else f'gen 1 {n + 100}')
                f.write(f'run_on_startup({piece!r})\n')
    current = ''
    text = ''
    expected = []

    def opened():
        for n, separator in scripts[current]:
            expected.append(str(n))
            if not separator.startswith('\\'):
                expected.append(str(n + 100))

    opened()
    switched = False
    for i, step in enumerate(steps):
        if step == 'var':
            text += "(f'<{sv}>')\n"
            expected.append(f'<{current}>')
        elif step == 'gen':
            text += f'gen 1 {i}\n'
            expected.append(str(i))
        elif step == 'fail':
            text += 'no_such_command\n'
        elif step == 'modify':
            text += modification + '\n'
        else:
            target = '' if step == 'close' else step[5:]
            if target == current:
                continue
            text += 'ws -c\n' if target == '' else f'ws -o {target}\n'
            current = target
            opened()
            switched |= len(scripts[current]) > 0
    out, err, rc, _ = run_marcel(cx, home, d, 'script', text, [])
    actual = [x for x in out.split('\n')[:-1] if not x.startswith('Workspace(')]
    cx.eq(actual, expected, f'{text!r} with startup scripts {scripts}: output; {err!r}')
    cx.eq(err.count('was defined by marcel, or in your startup script'), steps.count('modify'), f'{text!r}: attempts to modify a variable defined by the startup script; {err!r}')
    cx.nontrivial(switched)


NEVER = ['MARCEL_VERSION', 'HOME', 'USER', 'HOST', 'WORKSPACE']
BROKEN = {'1 / 0': 'division by zero', 'x = (': 'never closed', 'import nosuchmodule': 'nosuchmodule', 'undefined': 'undefined',
          'raise ValueError("oops")': 'oops', 'run_on_startup(1, 2, 3)': 'run_on_startup'}


@st.composite
def unusable(draw):
    kind = draw(st.sampled_from(['never', 'broken']))
    lines = draw(st.lists(st.sampled_from(['a = 1', '# comment', 'import math', 'def f(x): return x', "b = 'HOME'"]), max_size=2))
    if kind == 'never':
        names = draw(st.lists(st.sampled_from(NEVER), min_size=1, max_size=2, unique=True))
        bad = [draw(st.sampled_from(["{} = 'x'", 'def {}(): pass', 'import math as {}', 'for {} in [1]: pass'])).format(n) for n in names]
        messages = ['must not modify'] + names
    else:
        bad = [draw(st.sampled_from(sorted(BROKEN)))]
        messages = [BROKEN[bad[0]]]
    for b in bad:
        lines.insert(draw(st.integers(0, len(lines))), b)
    return draw(st.sampled_from(['', 'w1', 'w1'])), lines, messages, draw(st.sampled_from(['script', 'bin', 'heredoc']))


@check('unusable startup', unusable, quick=30, thorough=400, shards=(2, 4), timeout=120,
       rule='the workspace is opened by the script, after a command')
def unusable_startup(case, cx):
    """A startup script which fails, or modifies a variable that can't be modified: nothing is run with it."""
    ws, lines, messages, how = case
    home = f'{cx.scratch}/home'
    d = directory(cx)
    s = mar.Session(home=home)
    s.switch('ws -n w1')
    s.switch('ws -c')
    s.close()
    os.chdir(f'{cx.scratch}/work')
    import marcel.locations
    import marcel.object.workspace
    W = marcel.object.workspace.Workspace
    path = marcel.locations.Locations().config_ws_startup(W(ws) if ws else W.default())
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    out, err, rc, _ = run_marcel(cx, home, d, how, "(1)\nws -o w1\n(2)\n(HOST)\n", [])
    actual = [x for x in out.split('\n')[:-1] if not x.startswith('Workspace(')]
    cx.eq(actual, ['1'] if ws else [], f'startup script {lines} of {ws!r}: output; {err!r}')
    for message in messages:
        cx.true(message in err, f'startup script {lines} of {ws!r}: {message!r} not in {err!r}')
    cx.true(rc != 0, f'startup script {lines} of {ws!r}: exit status is 0')
    cx.nontrivial(ws != '')
