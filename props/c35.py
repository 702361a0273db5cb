"""C35: the prompt shows the configured pieces, evaluated each time, and the directory relative to the home."""
import os
import pathlib
import re

import hypothesis.strategies as st

from harness import mar
from harness.core import check, short


class Interactive(mar.Session):
    """A session with the environment of interactive usage, but without a terminal."""

    def open(self, workspace, trace=None):
        import marcel.env
        import marcel.main
        self.env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
        self.main = marcel.main.MainScript(self.env)
        self.main.run_startup_scripts()


# The directories. h is the home directory, l a link to it. They are inside the directory of the case.
DIRS = ['.', 'h', 'h/sub', 'h/sub/deep er', 'h/é', 'hbob', 'hbob/sub', 'h2/h', 'l', 'l/sub', 'h/up', 'h/sub/h', '/', '/usr/lib', 'h/.config', 'x~y', 'x~y/~']
LINKS = {'l': 'h', 'h/up': '..'}
HOMES = ['h', 'h', 'h', 'l', 'h/sub', 'h/', 'h/sub/..']
WS_HOMES = ['h/sub', 'h/sub/', 'l/sub', 'h/sub/../sub', '~/sub', '~', 'h', 'hbob', 'h2', 'x~y', '.', 'h/up', 'l', 'nowhere', './h/sub', '~/nowhere/..']

COLORS = st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.sampled_from(['', 'BOLD', 'ITALIC', 'BOLD | ITALIC']))
STRINGS = st.one_of(st.sampled_from(['$ ', 'M ', ':', '', ' ', 'x\ny', '{}', '%s', 'é中', '\\', "'", '"', '~', '0']), st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=5))
# Source of the function, its value in terms of the state
FUNCTIONS = [
    ('lambda: PWD', lambda m: m.pwd),
    ('lambda: PROMPT_DIR', lambda m: m.prompt_dir()),
    ('lambda: (PROMPT_DIR)', lambda m: m.prompt_dir()),
    ('lambda: "[" + PROMPT_DIR + "]"', lambda m: '[' + m.prompt_dir() + ']'),
    ('lambda: f"{WORKSPACE} " if WORKSPACE else ""', lambda m: f'{m.ws} ' if m.ws else ''),
    ('lambda: HOME', lambda m: m.home),
    ('lambda: len(DIRS)', lambda m: str(m.depth)),
    ('lambda: None', lambda m: ''),
    ('lambda: ""', lambda m: ''),
    ('lambda: Color(1, 2, 3, BOLD)', lambda m: (1, 2, 3, 'BOLD')),
    ('lambda: Color(5, 0, 0) if WORKSPACE else Color(0, 5, 0)', lambda m: (5, 0, 0, '') if m.ws else (0, 5, 0, '')),
    ('lambda: COUNTER.append(1) or len(COUNTER)', lambda m: str(m.count())),
    ('later', lambda m: 'later' + m.pwd),
    ('USER', lambda m: m.user),
    ('HOST', lambda m: m.host),
    ('MARCEL_VERSION', lambda m: m.version),
]
BAD = ['lambda: 1 / 0', 'lambda: NO_SUCH_VARIABLE', 'lambda x: x', 'lambda: PWD + 1']  # Other invalid pieces end the session, deliberately

pieces = st.one_of(st.tuples(st.just('color'), COLORS), st.tuples(st.just('string'), STRINGS), st.tuples(st.just('function'), st.integers(0, len(FUNCTIONS) - 1)),
                   st.tuples(st.just('function'), st.sampled_from([0, 1, 1, 3, 9])))
prompts = st.tuples(st.lists(pieces, max_size=9), st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(st.sampled_from(BAD), st.integers(0, 9))))
actions = st.one_of(
    st.tuples(st.just('cd'), st.sampled_from(DIRS)), st.tuples(st.just('cd'), st.sampled_from(DIRS)),
    st.tuples(st.just('pushd'), st.sampled_from(DIRS)), st.tuples(st.just('popd')),
    st.tuples(st.just('ws'), st.sampled_from(['w1', 'w2', ''])),
    st.tuples(st.just('home'), st.sampled_from(WS_HOMES)), st.tuples(st.just('restart')), st.tuples(st.just('again')))
cases = st.tuples(st.sampled_from(HOMES), st.dictionaries(st.sampled_from(['', 'w1', 'w2']), prompts), st.lists(actions, min_size=1, max_size=14))


class Model(object):

    def __init__(self, root, home):
        import getpass
        import socket
        import marcel.version
        self.root = root
        self.user = getpass.getuser()
        self.host = socket.gethostname()
        self.version = marcel.version.VERSION
        self.home = os.path.realpath(root / home)
        self.ws = ''
        self.pwd = None
        self.depth = None
        self.homes = {}
        self.counts = 0

    def count(self):
        self.counts += 1
        return self.counts

    def prompt_dir(self):
        home = self.homes.get(self.ws) if self.ws else self.home
        pwd = pathlib.Path(self.pwd)
        if home is None or pathlib.Path(home) not in [pwd, *pwd.parents]:
            return self.pwd
        rel = os.path.relpath(self.pwd, home)
        rel = '' if rel == '.' else rel
        return rel if self.ws else '~' if not rel else '~/' + rel


def source(prompt):
    """The startup script setting the prompt"""
    items, bad = prompt
    out = []
    for kind, x in items:
        if kind == 'color':
            r, g, b, style = x
            out.append(f'Color({r}, {g}, {b}, {style})' if style else f'Color({r}, {g}, {b})')
        elif kind == 'string':
            out.append(repr(x))
        else:
            out.append(FUNCTIONS[x][0])
    if bad:
        text, i = bad
        out.insert(min(i, len(out)), text)
    return 'COUNTER = []\ndef later():\n    return "later" + PWD\nset_prompt(' + ',\n    '.join(out) + ')\n'


def expected(prompt, model):
    """[(char, color)]"""
    items, bad = prompt
    out = []
    color = None
    for kind, x in items:
        value = FUNCTIONS[x][1](model) if kind == 'function' else x
        if isinstance(value, tuple):
            color = value
        else:
            out.extend((c, color) for c in value)
    return out


SGR = re.compile('\033\\[([0-9;]*)m')


def rendered(text, cx):
    """What a terminal shows: [(char, color)]"""
    out = []
    fg, bold, italic = None, False, False
    p = 0
    while p < len(text):
        m = SGR.match(text, p)
        if m:
            p = m.end()
            codes = [int(x or 0) for x in m.group(1).split(';')]
            while codes:
                c = codes.pop(0)
                if c == 0:
                    fg, bold, italic = None, False, False
                elif c == 1:
                    bold = True
                elif c == 3:
                    italic = True
                elif c == 38 and codes[:1] == [5]:
                    n = codes[1] - 16
                    codes = codes[2:]
                    fg = n // 36, n // 6 % 6, n % 6
                else:
                    cx.fail(f'unexpected code {c} in {text!r}')
        else:
            style = ' | '.join(x for x, on in (('BOLD', bold), ('ITALIC', italic)) if on)
            out.append((text[p], None if fg is None else fg + (style,)))
            p += 1
    if (fg, bold, italic) != (None, False, False):
        cx.fail(f'the colour is still in effect after the prompt {text!r}')
    return out


def make(root):
    for d in DIRS:
        if not d.startswith('/') and d.split('/')[0] != 'l' and d not in LINKS:
            os.makedirs(root / d, exist_ok=True)
    for link, target in LINKS.items():
        os.symlink(target, root / link)


@check('prompt', lambda: cases, quick=500, thorough=8000, shards=(3, 8), rule='at least two prompts are shown in different directories or workspaces, by a prompt of at least two pieces')
def prompt(case, cx):
    home, prompts, actions = case
    import io
    import contextlib
    import shutil
    root = pathlib.Path(cx.scratch) / 'work' / 'c35'
    os.chdir(cx.scratch)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    make(root)
    model = Model(root, home)
    old_home = os.environ['HOME']
    s = None
    default = [('color', (1, 2, 3, '')), ('string', 'D'), ('function', 1), ('string', '$ ')], None
    prompts = {ws: prompts.get(ws, default) for ws in ('', 'w1', 'w2')}
    try:
        os.chdir(root)
        os.environ['HOME'] = str(root / home)
        os.makedirs(root / 'h' / '.config', exist_ok=True)
        s = Interactive(home=str(root / home), config=source(prompts['']), reset=False)
        for ws in ('w1', 'w2'):
            _, err, switched = s.switch(f'ws -n {ws}')
            cx.true(switched, f'ws -n {ws} failed: {err}')
            path = s.env.locations.config_ws_startup(s.env.workspace)
            path.write_text(source(prompts[ws]))
            s.switch('ws -c')
        model.counts = 0
        s.restart()
        states = set()
        shown = 0
        for action in actions:
            kind = action[0]
            cx.label(kind)
            arg = str(root / action[1]) if kind in ('cd', 'pushd') else None
            if kind in ('cd', 'pushd'):
                _, err, _ = s.switch(f"{kind} '{arg}'")
                cx.eq(err, '', f'{kind} {arg}')
            elif kind == 'popd':
                s.switch('popd')
            elif kind == 'ws':
                if action[1] != model.ws:
                    _, err, switched = s.switch(f'ws {action[1]}' if action[1] else 'ws -c')
                    cx.true(switched, f'{action} failed: {err}')
                    model.ws = action[1]
                    model.counts = 0
            elif kind == 'home':
                arg = action[1]
                base = s.get('PWD')
                if not arg.startswith('~'):
                    # Relative, or absolute
                    arg = os.path.relpath(root / arg, base) + ('/' if arg.endswith('/') else '') if arg.startswith(('.', 'h/sub')) else str(root / arg)
                _, err, _ = s.switch(f"ws -h {arg}")
                if model.ws:
                    cx.eq(err, '', f'ws -h {arg}')
                    model.homes[model.ws] = os.path.realpath(os.path.join(base, os.path.expanduser(arg)))
                else:
                    cx.true(err, 'the default workspace was given a home')
            elif kind == 'restart':
                s.restart()
                model.ws = ''
                model.counts = 0
            model.pwd = s.get('PWD')
            model.depth = len(s.get('DIRS'))
            states.add((model.ws, model.pwd))
            out, err = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                text = s.env.prompt()
            where = f'{source(prompts[model.ws])} in {model.pwd}, home {model.home}, workspace {model.ws} with home {model.homes.get(model.ws)}'
            if prompts[model.ws][1]:
                cx.label('bad')
                cx.true(err.getvalue(), f'no error is reported for {where}')
            else:
                cx.eq((out.getvalue(), err.getvalue()), ('', ''), f'output of {where}')
            if prompts[model.ws][1]:
                cx.true(text.strip(), f'no prompt is shown for {where}')
            else:
                cx.eq(rendered(text, cx), expected(prompts[model.ws], model), f'prompt {where}')
            cx.eq(str(s.get('PROMPT_DIR')), model.prompt_dir(), f'PROMPT_DIR {where}')
            shown += 1
        cx.nontrivial(len(states) > 1 and any(len(prompts[ws][0]) > 1 for ws, _ in states))
    finally:
        if s is not None and s.main is not None:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                s.close()
        os.environ['HOME'] = old_home
        os.chdir(cx.scratch)
        shutil.rmtree(root, ignore_errors=True)
