"""C29: command history is recorded and recalled verbatim."""
import contextlib
import io
import os
import re
import sys

import hypothesis.strategies as st

from harness import mar, objects
from harness.core import check, short


class Terminal(object):

    def isatty(self):
        return True

    def fileno(self):
        return 0


class Died(Exception):
    pass


@contextlib.contextmanager
def patched(object, name, value):
    saved = getattr(object, name)
    setattr(object, name, value)
    try:
        yield
    finally:
        setattr(object, name, saved)


def interact(keys):
    """Run an interactive marcel session (in this process), typing the keys. Commands run in this process instead of a job. Returns what was written to stdout and stderr."""
    import marcel.main
    import marcel.object.workspace
    from prompt_toolkit.application import create_app_session
    from prompt_toolkit.input import create_pipe_input
    from prompt_toolkit.output import DummyOutput
    mains = []
    init = marcel.main.MainInteractive.__init__

    def recording_init(self, *args, **kwargs):
        mains.append(self)
        init(self, *args, **kwargs)

    marcel.object.workspace.Workspace.DEFAULT = None
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), create_pipe_input() as input, create_app_session(input=input, output=DummyOutput()), \
            patched(sys, 'stdin', Terminal()), patched(marcel.main.MainInteractive, 'execute_command', marcel.main.MainScript.execute_command), \
            patched(marcel.main.MainInteractive, '__init__', recording_init):
        input.send_text(keys)
        try:
            marcel.main.main_interactive_run()
        finally:
            if mains:
                mains[-1].shutdown()
    return out.getvalue(), err.getvalue()


TEXT = st.one_of(st.sampled_from(['x', 'abc', 'a  b', 'é中', '\U0001f600', "it's", '"q"', '+x', '# x', ' ', 'ls', '| x', '\\', '\\n', '!', '!!', '!3', '1', '(', 'edit', 'edit 1', 'history', '\u2028', '\xa0', '\x85',
                                  'tail  ', '-c', '$', "'", 'A', 'x' * 300]),
                 st.text(st.characters(blacklist_categories=['Cs', 'Cc']), max_size=6))
LINES = st.lists(TEXT, min_size=1, max_size=4).map('\n'.join)


@st.composite
def steps(draw):
    kind = draw(st.sampled_from(['comment', 'comment', 'comment', 'output', 'output', 'output', 'error', 'history', 'history', 'recall', 'recall', 'again', 'run', 'run', 'rerun', 'edit', 'edit_same', 'edit_last', 'ws', 'ws', 'restart', 'startup', 'similar', 'beyond']))
    if kind == 'comment':
        return kind, '#' + draw(LINES)
    if kind == 'output':
        # Several lines
        return kind, draw(st.integers(0, 99)), draw(st.sampled_from(['', ' ', '  ', '\n', '\n\n  ', ' \n'])), draw(st.sampled_from(['', '  ', '\n', '  # end'])), draw(TEXT.filter(lambda x: "'" not in x and '\\' not in x and not x.isspace()))
    if kind == 'error':
        return kind, draw(st.sampled_from(['gen x', 'ls /nonexistent', 'no_such_command', 'map (', '| |', "'open", 'history 0', 'history -x', 'edit -s nosuch']))
    if kind == 'history':
        return kind, draw(st.sampled_from([None, None, 1, 2, 3, 10, 100])), draw(st.sampled_from([None, None, 'x', 'h', 'gen', 'é', '(', 'history', '1', "'", '!', '#'])), draw(st.booleans()), draw(st.booleans())
    if kind in ('recall', 'run', 'edit', 'edit_same', 'beyond'):
        return kind, draw(st.integers(0, 40)), draw(st.sampled_from(['', '', ' ', '  ']))
    if kind == 'ws':
        return kind, draw(st.sampled_from(['', 'w1', 'w2']))
    if kind == 'similar':
        return kind, draw(st.sampled_from(['editor', 'edits 3', 'edit_1', 'editor 2', 'historyx']))
    return kind,


@st.composite
def histories(draw):
    return draw(st.one_of(st.lists(steps(), min_size=1, max_size=8), st.lists(steps(), min_size=10, max_size=25)))


def keys_of(command):
    return command.replace('\n', '\x1b\r') + '\r'


class Model(object):

    def __init__(self):
        self.histories = {'': []}
        self.ws = ''
        self.created = {''}
        self.modified = False   # a startup script, so that the next command is run in a new environment
        self.out = []
        self.errors = 0
        self.kinds = {}     # command -> what it does

    @property
    def h(self):
        return self.histories.setdefault(self.ws, [])

    def record(self, command):
        if not self.h or self.h[-1] != command:
            self.h.append(command)

    def run(self, command):
        """Simulate execution of the command"""
        kind = self.kinds.get(command)
        if kind is None:
            self.errors += not command.startswith('#')
        elif kind[0] == 'output':
            self.out.append(kind[1])
        elif kind[0] == 'history':
            _, n, pattern, all, mapped = kind
            selected = [(i, c) for i, c in enumerate(self.h) if pattern is None or pattern in c]
            if not all:
                selected = selected[-(n or 20):]
            for i, c in selected:
                self.out.append(repr((i, c)) + '\n' if mapped else f'  {i}:  {c}\n')
        elif kind[0] == 'run':
            n = len(self.h) - 2 if kind[1] is None else kind[1]
            if 0 <= n < len(self.h):
                self.run(self.h[n])
            else:
                self.errors += 1
        elif kind[0] == 'startup':
            self.modified = True
        elif kind[0] == 'ws':
            if kind[2] and kind[1] in self.created:
                self.errors += 1
            else:
                self.created.add(kind[1])
                self.ws = kind[1]

    def terminates(self, command):
        """Whether running the command ends: an operator run can run itself."""
        h = self.h if self.h and self.h[-1] == command else self.h + [command]
        for _ in range(20):
            kind = self.kinds.get(command)
            if kind is None or kind[0] != 'run':
                return True
            n = len(h) - 2 if kind[1] is None else kind[1]
            if not 0 <= n < len(h):
                return True
            command = h[n]
        return False


RULE = 'at least five commands, one of which is recalled or a listing of the history'


@check('sessions', histories, quick=240, thorough=12000, shards=(4, 6), timeout=120, rule=RULE)
def sessions(case, cx):
    home = f'{cx.scratch}/home'
    mar.reset_home(home)
    os.environ['HOME'] = home
    import marcel.locations
    import marcel.persistence.storagelayout
    import marcel.object.workspace
    marcel.object.workspace.Workspace.DEFAULT = None
    marcel.persistence.storagelayout.ensure_current(testing=True, initial_config='')
    editor = f'{cx.scratch}/work/editor'
    with open(editor, 'w') as f:
        # Editors end the file with a newline
        f.write(f'#!/bin/sh\nif head -c 1 "$1" | grep -q "#"; then echo >> "$1"; else printf \'%s\\n\' "gen 1 88" > "$1"; fi\n')
    os.chmod(editor, 0o755)
    os.environ['EDITOR'] = editor
    m = Model()
    keys = []
    entered = recalled = 0
    sequence = [('restart',)] + case + [('restart',), ('history', None, None, True, True), ('restart',)]
    for ws in ('w2', 'w1'):
        command = f'ws -n {ws}'
        m.kinds[command] = 'ws', ws, True

    def finish():
        nonlocal keys
        m.modified = False
        if keys:
            typed = ''.join(keys)
            out, err = interact(typed + '\x04')
            out = re.sub(r'^Workspace\(\w*\)\n', '', out, flags=re.MULTILINE)   # Printed when the workspace changes
            expected = ''.join(m.out)
            # At the end of a session, there is an end of line
            cx.true(out == expected + '\n', f'typed {typed!r}: expected output {expected!r}, got {out!r}, {err!r}')
            cx.true(bool(err) == (m.errors > 0), f'typed {typed!r}: {m.errors} errors expected, got {err!r}')
        keys = []
        m.out = []
        m.errors = 0
        m.ws = ''
        fresh.clear()

    fresh = set()   # workspaces in which something has been entered since they were opened

    def enter(command, typed=None):
        """The command has been entered, by typing something else"""
        nonlocal entered
        if m.h and m.h[-1] == command and m.ws not in fresh or not m.terminates(command):
            return False
        keys.append(keys_of(command if typed is None else typed))
        m.record(command)
        fresh.add(m.ws)
        if m.modified:
            m.modified = False
            fresh.discard(m.ws)
        ws = m.ws
        m.run(command)
        if m.ws != ws:
            fresh.discard(m.ws)
        entered += 1
        return True

    for step in sequence:
        kind = step[0]
        if kind == 'restart':
            finish()
        elif kind in ('comment', 'similar', 'error'):
            enter(step[1])
        elif kind == 'output':
            _, n, a, b, text = step
            command = f"gen{a or ' '}1 {n} {a}|{a} (x: (x, '{text}')){b}"
            m.kinds[command] = 'output', repr((n, text)) + '\n'
            enter(command)
        elif kind == 'history':
            _, n, pattern, all, mapped = step
            command = 'history'
            if pattern is not None:
                command += ' -c "' + pattern + '"'
            if all:
                command += ' --all'
            elif n is not None:
                command += f' {n}'
            if mapped:
                command += ' | (h: (h.id, h.command))'
            m.kinds[command] = 'history', n, pattern, all, mapped
            recalled += enter(command)
        elif kind in ('recall', 'again', 'edit', 'edit_same', 'edit_last'):
            if not m.h:
                continue
            n = len(m.h) - 1 if kind in ('again', 'edit_last') else step[1] % len(m.h)
            command = m.h[n]
            edits = kind.startswith('edit') and not command.startswith('#')
            if edits:
                command = 'gen 1 88'
                m.kinds[command] = 'output', '88\n'
            typed = ('!!' if kind == 'again' else
                     'edit' if kind == 'edit_last' else
                     f'!{step[2]}{n}{step[2]}' if kind == 'recall' else
                     f'edit {step[2]}{n}')
            recalled += enter(command, typed)
        elif kind in ('run', 'rerun'):
            n = step[1] % (len(m.h) + 3) if kind == 'run' else None
            command = 'run' if n is None else f'run {step[2]}{n}'
            m.kinds[command] = 'run', n
            recalled += enter(command)
        elif kind == 'beyond':
            n = len(m.h) + step[1]
            enter(f'edit {n}')
        elif kind == 'ws':
            if step[1] != m.ws:
                command = 'ws -c' if step[1] == '' else f'ws -n {step[1]}' if step[1] not in m.created else f'ws -o {step[1]}'
                m.kinds[command] = 'ws', step[1], ' -n ' in command
                enter(command)
        elif kind == 'startup':
            # The command following this one is run with new startup scripts
            path = marcel.locations.Locations().config_ws_startup(marcel.object.workspace.Workspace(m.ws) if m.ws else marcel.object.workspace.Workspace.default())
            command = f'touch {path}'
            m.kinds[command] = 'startup',
            enter(command)
    cx.nontrivial(entered > 5 and recalled > 0)


@check('records', lambda: objects.cases, quick=400, thorough=8000, shards=(2, 4), rule='equal items, in the same or in different objects')
def records(case, cx):
    """Records of the history are equal if they have the same number, are ordered by it, and can be used with all operators."""
    from marcel.object.historyrecord import HistoryRecord
    commands = ['ls', 'gen 3', 'ls', '', 'gen 3 | sort']
    objects.check_operators(case, cx, [HistoryRecord(i * 7, commands[i]) for i in range(5)], lambda r: r.id, lambda r: HistoryRecord(r.id, r.command))
