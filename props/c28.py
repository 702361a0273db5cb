"""C28: tab completion offers exactly the valid continuations, and what it inserts denotes them."""
import contextlib
import os
import pathlib
import shlex
import sys

import hypothesis.strategies as st

from harness import mar, trees
from harness.core import check, short

OPS = ['args', 'assign', 'bash', 'bg', 'case', 'cast', 'cd', 'difference', 'dirs', 'download', 'edit', 'env', 'exit', 'expand', 'fg', 'filter',
       'fork', 'gen', 'head', 'help', 'history', 'import', 'intersect', 'jobs', 'join', 'load', 'ls', 'map', 'popd', 'ps', 'pushd', 'pwd', 'read',
       'red', 'remote', 'reverse', 'run', 'select', 'sort', 'sql', 'squish', 'store', 'sudo', 'tail', 'timer', 'trace', 'union', 'unique',
       'upload', 'version', 'window', 'write', 'ws']
TOPICS = ['builtin', 'color', 'command', 'configuration', 'file', 'function', 'history_record', 'interaction', 'marcel', 'namespace', 'object', 'operator',
          'overview', 'pipeline', 'process', 'prompt', 'startup']
FLAGS = {
    'rec': '',
    'ls': '-0 -1 -r --recursive -f --file -d --dir -s --symlink',
    'window': '-o --overlap -d --disjoint',
    'reverse': '', 'gen': '-p --pad', 'join': '-k --keep', 'red': '-i --incremental', 'cd': '', 'map': '', 'args': '-a --all',
    'write': '-c --csv -t --tsv -p --pickle -f --format -a --append',
    'ps': '-u --user -g --group -p --pid -c --command',
    'ws': '-l --list -n --new -o --open -c --close -d --delete -b --delete-broken -h --home -r --rename -2 --copy -e --export -i --import',
}
EXECUTABLES = ['rec', 'zed', 'zed2', 'x-y', 'lsx', 'Zz']


def base(cx):
    return f'{cx.scratch}/work/c28'


def setup(cx):
    b = base(cx)
    for d in ['bin', 'bin2']:
        os.makedirs(f'{b}/{d}', exist_ok=True)
    for n in EXECUTABLES:
        path = f'{b}/{"bin2" if n == "zed2" else "bin"}/{n}'
        with open(path, 'w') as f:
            f.write(f'#!/bin/sh\nprintf \'%s\\0\' "$@" > {shlex.quote(b)}/argv\n')
        os.chmod(path, 0o755)
    # Not executable
    with open(f'{b}/bin/zero', 'w'):
        pass
    os.environ['PATH'] = f'{b}/bin:{b}/missing:{b}/bin2'


def complete(line, after=''):
    """[(what is displayed, the line once the completion has been inserted)]"""
    from marcel.tabcompleter import TabCompleter
    from prompt_toolkit.completion import CompleteEvent
    from prompt_toolkit.document import Document
    s = mar.shared_session()
    completer = TabCompleter(s.env)
    document = Document(line + after, cursor_position=len(line))
    completions = completer.get_completions(document, CompleteEvent(text_inserted=False, completion_requested=True))
    return [(c.display_text, line[:len(line) + c.start_position] + c.text) for c in completions]


# Operators, flags, topics

BEFORE = ['', 'gen 3 | ', 'gen 3|', 'gen 3 | args (| ', 'gen 3 | args (|x: ', 'gen 3 | args (| a, b : gen 2 | ', 'gen 3 | (x: x + 1) | ', 'x = (| ',
          "ls 'a b' | ", 'ls "|" | ', 'ls a\\| | ', 'gen 2 | join (| gen 3 |) | ', 'case (x: x) (| gen 3 |) (| ', 'gen 2 | union (| gen 1 | (x: x) |) (| ', 'rec a | ']


@st.composite
def words(draw):
    kind = draw(st.sampled_from(['op', 'op', 'exe', 'flag', 'flag', 'topic']))
    before = draw(st.sampled_from(BEFORE))
    if kind in ('op', 'exe'):
        word = draw(st.sampled_from(OPS if kind == 'op' else EXECUTABLES + ['zero', 'nope', 'lsxx']))
        word = word[:draw(st.integers(1 if kind == 'exe' else 0, len(word)))]
        return before + word, 'op', word
    if kind == 'topic':
        word = draw(st.sampled_from(OPS + TOPICS + ['nope']))
        word = word[:draw(st.integers(0, len(word)))]
        return draw(st.sampled_from(['', ' '])) + 'help ' + draw(st.sampled_from(['', ' '])) + word, 'topic', word
    op = draw(st.sampled_from(sorted(FLAGS)))
    flag = draw(st.sampled_from(FLAGS[op].split() + ['--nope', '-x', '-']))
    flag = flag[:draw(st.integers(1, len(flag)))]
    earlier = ''
    if draw(st.sampled_from([True] + [False] * 9)):
        op = 'rec'
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        earlier += draw(st.sampled_from(['a', '(1)', "'x y'", '"-"', '(| gen 2 |)', '(| x: gen 2 | args (| y: ls -r |) |)', '-' + op[0], '--' + op[1:], 'a\\ b', '(| ls -0 -f . |)'])) + ' '
    return f'{before}{op} {earlier}{flag}', 'flag', (op, flag)


@check('words', lambda: st.tuples(words(), st.sampled_from(['', '', '', ' x', ' | (', " '"])), quick=4000, thorough=60000, shards=(2, 6), setup=setup, rule='at least one completion, in a pipeline that is nested or has several operators, or following other arguments')
def offers(case, cx):
    (line, kind, word), after = case
    before = line[:len(line) - len(word if kind != 'flag' else word[1])]
    offered = complete(line, after)
    if kind == 'op':
        expected = [op for op in OPS if op.startswith(word)] or [x for x in EXECUTABLES if x.startswith(word)]
    elif kind == 'topic':
        expected = [t for t in OPS + TOPICS if t.startswith(word)]
    else:
        op, flag = word
        expected = [f for f in FLAGS[op].split() if f.startswith(flag)]
    if line == '':
        # Nothing has to be offered
        expected = [d for d, _ in offered if d in OPS]
    cx.eq(sorted(d for d, _ in offered), sorted(expected), f'{line!r}: offered')
    for display, new in offered:
        cx.eq(new.rstrip(' '), before + display, f'{line!r}: {display}')
        cx.true(new.endswith(' ') or kind == 'topic', f'{line!r}: {new!r}')
    cx.nontrivial(len(expected) > 0 and ('|' in before or before.count(' ') > 1))
    cx.label(kind)


# Files

SPECIAL = ' $!"&\'()*:;<>?@[\\`{|#~=,%^]}-+\té'
# Characters that cannot be typed as they are in an unquoted word
ESCAPE = ' \t\'"\\()|<>['
# Also special to the shell
SHELL = '$&*;?[`{!#~}'
# Operators whose arguments are parsed as those of executables, other operators, and executables
BASHY = ['ls ', 'ls -r ', 'read ', "ls 'x y' ", 'ls "" a ', 'ls (1) ', 'gen 3 | args (| ls ', 'gen 3 | args (| x: ls ', 'ls a\\ b ', 'P = (| ls ', 'ls  \t ',
         'gen 2 | join (| ls ', "ls 'it' 'is' "]
MARCEL = ['cd ', 'pushd ', 'gen 3 | write ', 'upload ', 'gen 2 | args (| gen 3 |) | write ', 'gen 3 | args (| x, y: gen 1 | write ', 'gen 1 | write --csv ',
          'upload "a=b" a\\,b ', 'P = (| cd ']
HOST = ['rec ', 'gen 3 | rec ', 'rec -x ', "rec 'a b' ", 'rec "x" --y ', 'gen 2 | args (| rec ', 'rec a\\ b ', 'bash rec ']


@st.composite
def names(draw):
    return draw(st.sampled_from(['', 'a', 'ab', 'a b'])) + ''.join(draw(st.lists(st.sampled_from(list('ab.') + list(SPECIAL)), max_size=4)))


def usable(name):
    # Names starting with ~ or - are something else, even when escaped, in a path relative to the current directory.
    return name not in ('', '.', '..') and name[0] not in '~-'


@st.composite
def files(draw):
    entries = draw(st.dictionaries(names().filter(usable), st.sampled_from(['file', 'file', 'dir', 'dirlink', 'broken']), min_size=1, max_size=6))
    sub = draw(st.sampled_from(['', ''] + sorted(n for n, k in entries.items() if k in ('dir', 'dirlink'))))
    below = draw(st.dictionaries(names().filter(usable), st.sampled_from(['file', 'file', 'dir']), min_size=1, max_size=4)) if sub else {}
    target = draw(st.sampled_from(sorted(below if sub else entries) + ['nope']))
    style = draw(st.sampled_from(['', '', "'", '"']))
    mode = draw(st.sampled_from(['host', 'bashy', 'marcel']))
    context = draw(st.sampled_from({'host': HOST, 'bashy': BASHY, 'marcel': MARCEL}[mode]))
    way = draw(st.sampled_from(['', '', '', './', '../here/', '/', '//', '~/'] if style == '' else ['', '', './', '../here/', '/']))
    prefix = target[:draw(st.integers(0, len(target)))]
    return entries, sub, below, style, mode, context, way, prefix, draw(st.booleans()), draw(st.sampled_from([True, False, False])), draw(st.sampled_from(['', '', '', ' b', '/x | gen 3', ' "']))


def typed(text, style, mode, extra):
    """The text as someone would type it, or None if that is impossible."""
    if style == "'":
        return None if "'" in text else text
    if style == '"':
        if '"' in text or mode == 'host' and any(c in text for c in '$`\\'):
            return None
        return text.replace('\\', '\\\\')
    buffer = []
    host = mode == 'host'
    for i, c in enumerate(text):
        escape = c in ESCAPE or (host or extra) and c in SHELL or c in '#!' or (i == 0 or mode == 'marcel') and c in '=,:' or i == 0 and c == '@' or extra and c in SPECIAL and c not in 'é'
        buffer.append('\\' + c if escape else c)
    return ''.join(buffer)


def prepare(cx, entries, sub, below):
    root = f'{base(cx)}/home'
    os.chdir(cx.scratch)
    trees.clear(root)
    here = f'{root}/here'
    os.makedirs(here)
    os.makedirs(f'{root}/elsewhere')
    for where, contents in (here, entries), (f'{here}/{sub}', below):
        for name, kind in contents.items():
            path = f'{where}/{name}'
            if kind == 'file':
                with open(path, 'w'):
                    pass
            elif kind == 'dir':
                os.mkdir(path)
            elif kind == 'dirlink':
                os.symlink(f'{root}/elsewhere', path)
            else:
                os.symlink('nowhere', path)
    s = mar.shared_session()
    os.chdir(here)
    s.env.dir_state().change_current_dir(pathlib.Path(here))
    if not s.env.hasvar('ARG'):
        s.command('ARG = (| word: map (word) |)')
    for v in ['rec', 'P'] + [c.split()[0] for c in MARCEL + BASHY]:
        if s.env.hasvar(v):
            s.env.delvar(v)
    return s, root, here


def clean(path):
    path = os.path.abspath(path)
    # abspath keeps two leading slashes
    return '/' + path.lstrip('/')


def denoted(cx, s, word, mode, line):
    """The path that the word denotes as an argument."""
    if mode == 'host':
        argv = f'{base(cx)}/argv'
        if os.path.exists(argv):
            os.unlink(argv)
        out, err = s.command(f'rec {word}')
        cx.true(not s.env.hasvar("rec"), f'{line!r}: rec {word} is an assignment')
        cx.eq((out, err), ('', ''), f'{line!r}: rec {word}')
        cx.true(os.path.exists(argv), f'{line!r}: rec {word} did not run')
        with open(argv) as f:
            args = f.read().split('\0')[:-1]
        cx.eq(len(args), 1, f'{line!r}: rec {word}: arguments')
        return clean(args[0])
    if mode == 'marcel':
        r = s.eval(f'ARG {word}')
        cx.eq((r.killed, r.stderr, len(r.out)), (None, '', 1), f'{line!r}: ARG {word}: {short(r.out)}')
        return clean(os.path.expanduser(r.out[0][0]))
    r = s.eval(f'ls -0 {word} | (f: f.path.as_posix())')
    cx.eq((r.killed, r.stderr, len(r.out)), (None, '', 1), f'{line!r}: ls -0 {word}: {short(r.out)}')
    return clean(r.out[0][0])


@check('files', files, quick=1600, thorough=40000, shards=(4, 6), setup=setup, rule='at least one completion, of a name with special characters, or in quotes')
def names_files(case, cx):
    entries, sub, below, style, mode, context, way, prefix, extra, bare_last, after = case
    s, root, here = prepare(cx, entries, sub, below)
    home = os.environ['HOME']
    try:
        os.environ['HOME'] = root
        where = f'{here}/{sub}' if sub else here
        directory = {'/': here + '/', '//': '/' + here + '/', '~/': 'here/'}.get(way, way) + (sub + '/' if sub else '')
        word = typed(directory + prefix, style, mode, extra)
        if word is not None and way == '~/':
            word = '~/' + word
        if word is None or (word == '' and style == '' and context.endswith('-')):
            return
        if bare_last and style == '' and prefix[-1:] in list('$!&*;?@[{' + (':' if mode != 'marcel' else '')) and len(prefix) > 1 and (len(word[:-1]) - len(word[:-1].rstrip('\\'))) % 2 == 1:
            # Forgot to escape the last character
            word = word[:-2] + word[-1]
        line = context + style + word
        listing = below if sub and entries[sub] == 'dir' else {**below} if sub else entries
        offered = complete(line, after)
        expected = sorted(n for n in listing if n.startswith(prefix))
        cx.eq(sorted(d for d, _ in offered), expected, f'{entries} {below}: {line!r}: offered')
        for name, new in offered:
            is_dir = os.path.isdir(f'{where}/{name}')
            cx.true(new.startswith(context), f'{line!r}: {new!r}')
            new_word = new[len(context):]
            # A directory can be continued
            if is_dir:
                cx.true(new_word.endswith('/'), f'{line!r}: {new!r} for a directory')
                if new_word[0] in '\'"':
                    new_word += new_word[0]
            else:
                cx.true(new_word.endswith(' '), f'{line!r}: {new!r} for a file')
                new_word = new_word[:-1]
            cx.eq(denoted(cx, s, new_word, mode, new), os.path.normpath(f'{where}/{name}'), f'{line!r}: {new!r}')
        cx.nontrivial(len(offered) > 0 and (style != '' or any(c in n for n in expected for c in SPECIAL)))
        cx.label(f'{style or "bare"} {mode}')
    finally:
        os.environ['HOME'] = home
        os.chdir(cx.scratch)
        trees.clear(root)


@contextlib.contextmanager
def printed(cx):
    """What is written to stdout or stderr, even by using sys.__stderr__"""
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    path = f'{base(cx)}/printed'
    out = ['']
    with open(path, 'w+') as f:
        try:
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            yield out
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            sys.__stderr__.flush()
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            os.close(saved[0])
            os.close(saved[1])
        f.seek(0)
        out[0] = f.read()


PIECES = ['ls', 'gen', 'map', ' ', ' ', ' ', '|', '(|', '|)', '(', ')', "'", '"', '\\', '~', '~/', '~root', '/', '-', '--', '=', '>', '<', '>$', '<$', ',', ':', '#', '!', '!!', '@', 'x', 'x: ', '1',
          'help', 'é', '\n', '$', '*', '[', 'rec', 'args ', 'ws -', 'bash ', 'lambda x', '{', '}', '.', '..', '/nonexistent/', '/root/', '/etc/passwd/', 'here/', 'locked/', '\0', '\t']


@check('anything', lambda: st.tuples(st.one_of(st.lists(st.sampled_from(PIECES), max_size=12).map(''.join), st.text(max_size=10)), st.sampled_from(['', ' x', ')'])), quick=6000, thorough=100000,
       shards=(3, 6), setup=setup, rule='at least two words')
def survives(case, cx):
    """Whatever has been typed, completion neither fails nor prints anything, and inserts at the cursor."""
    line, after = case
    s, root, here = prepare(cx, {'a': 'file', 'b c': 'dir', 'locked': 'dir'}, '', {})
    os.chmod(f'{here}/locked', 0)
    home = os.environ['HOME']
    try:
        os.environ['HOME'] = root
        with printed(cx) as out:
            try:
                offered = complete(line, after)
            except Exception as e:
                cx.fail(f'{line!r}: {type(e).__name__}: {e}')
        cx.eq(out[0], '', f'{line!r}: printed')
        for _, new in offered:
            cx.true(len(new) >= len(line) - 1 or "'" in line or '"' in line, f'{line!r}: {new!r}')
        cx.nontrivial(len(line.split()) > 1)
        cx.label(f'{len(offered) > 0}')
    finally:
        os.environ['HOME'] = home
        os.chdir(cx.scratch)
        trees.clear(root)
