"""C11: redirection symbols are exactly the corresponding operators."""
import os

import hypothesis.strategies as st

from harness import mar
from harness.core import check

FILES = ['f1', 'a b', "it's", 'x.txt', 'd/g', 'gen']
VARS = ['r', 's', 't']
SPACES = st.sampled_from(['', ' ', ' ', ' ', '  ', '\t'])

# A command is (source, stages, target):
#   source: ('gen', n) ('echo', word) ('file', name) ('var', name) ('none',)
#   stage:  ('map', i) ('head', n) ('tail', n) ('reverse',) ('count',) ('args', command) ('union', command)
#   target: None or (kind, name, append)
MAPS = [('(*t: (t[0], 1))', lambda *t: (t[0], 1)), ("(*t: f'v{t[0]}')", lambda *t: (f'v{t[0]}',)),
        ('(*t: str(t[-1]) * 2)', lambda *t: (str(t[-1]) * 2,)), ('(*t: t)', lambda *t: t), ("(*t: '')", lambda *t: ('',))]


@st.composite
def commands(draw, sources=None, targets=None, depth=1):
    """sources, targets: lists of (kind, name) that may be used. No file or variable is both within one command."""
    places = [('file', f) for f in FILES] + [('var', v) for v in VARS]
    if sources is None:
        flags = draw(st.lists(st.sampled_from([0, 0, 1]), min_size=len(places), max_size=len(places)))
        sources = [p for p, f in zip(places, flags) if not f]
        targets = [p for p, f in zip(places, flags) if f]
    source = draw(st.one_of(st.tuples(st.just('gen'), st.integers(1, 4)),
                            st.tuples(st.just('gen'), st.integers(1, 4)),
                            *([st.tuples(st.just('echo'), st.sampled_from(['a', 'bc', 'x.y']))]
                              if depth and draw(st.integers(0, 7)) == 0 else []),
                            *([st.sampled_from(sources)] * 4 if sources else [])))
    stages = []
    for _ in range(draw(st.integers(0, 3 if depth else 1))):
        kind = draw(st.sampled_from(['map', 'map', 'head', 'tail', 'reverse', 'count'] + (['args', 'union'] if depth else [])))
        if kind == 'map':
            stages.append((kind, draw(st.integers(0, len(MAPS) - 1))))
        elif kind in ('head', 'tail'):
            stages.append((kind, draw(st.integers(1, 3))))
        elif kind in ('args', 'union'):
            mine = draw(st.sampled_from(targets)) if targets else None
            targets = [t for t in targets if t != mine]
            stages.append((kind, draw(commands(sources, [mine] if mine else [], depth - 1))))
        else:
            stages.append((kind,))
    target = None
    if targets and draw(st.integers(0, 9)) < (8 if depth else 6):
        kind, name = draw(st.sampled_from(targets))
        target = (kind, name, draw(st.booleans()))
    if depth and not stages and draw(st.integers(0, 4)) == 0 and target:
        source = ('none',)
    return source, stages, target


assignments = st.tuples(st.just('assign'), st.sampled_from(VARS))
spacing = st.lists(st.tuples(SPACES, SPACES, st.integers(0, 2)), min_size=8, max_size=8)
histories = st.lists(st.one_of(assignments, *([st.tuples(st.just('command'), commands(), spacing)] * 7)), min_size=1, max_size=9)


# ----------------------------------------------------------------------------------------------------------------------
# Rendering

def quote(name, style):
    if style == 0:
        return ''.join('\\' + c if c in " '\\" else c for c in name)
    if style == 1 and "'" not in name:
        return f"'{name}'"
    return f'"{name}"'


def file_name(name, prefix):
    head, tail = os.path.split(name)
    return os.path.join(head, prefix + tail)


class Renderer(object):

    def __init__(self, symbols, spacing, prefix):
        self.symbols = symbols
        self.spacing = spacing
        self.prefix = prefix
        self.n = 0

    def place(self, kind, name):
        self.n += 1
        return (self.prefix + name if kind == 'var' else
                quote(file_name(name, self.prefix), self.spacing[self.n % len(self.spacing)][2]))

    def arrow(self, symbol):
        self.n += 1
        before, after, _ = self.spacing[self.n % len(self.spacing)]
        return before + symbol + after

    def stage(self, s):
        k = s[0]
        if k == 'map':
            return f'map {MAPS[s[1]][0]}'
        if k in ('head', 'tail'):
            return f'{k} {s[1]}'
        if k == 'reverse':
            return k
        if k == 'count':
            return 'red count'
        if k == 'args':
            return f'args (| arg: {self.command(s[1])} |)'
        return f'union (| {self.command(s[1])} |)'

    def command(self, command):
        source, stages, target = command
        rendered = []
        text = ''
        if source[0] == 'gen':
            rendered.append(f'gen {source[1]}')
        elif source[0] == 'echo':
            rendered.append(f'echo {source[1]}')
        elif source[0] != 'none':
            place = self.place(*source)
            if self.symbols:
                text = place + self.arrow('<' if source[0] == 'file' else '<$')
            else:
                rendered.append(f'read {place}' if source[0] == 'file' else f'load {place}')
        rendered += [self.stage(s) for s in stages]
        text += ' | '.join(rendered)
        if target:
            kind, name, append = target
            place = self.place(kind, name)
            if self.symbols:
                text += self.arrow(('>>' if append else '>') + ('' if kind == 'file' else '$')) + place
            else:
                op = ('write' if kind == 'file' else 'store') + (' --append' if append else '') + ' ' + place
                text += f' | {op}' if text else op
        return text


# ----------------------------------------------------------------------------------------------------------------------
# Model

class Kill(Exception):
    pass


def line(row):
    return str(row[0]) if len(row) == 1 else str(row)


def check_setup(command, world, top=True):
    source, stages, target = command
    if source[0] == 'file' and source[1] not in world['file']:
        raise Kill()
    if source[0] == 'var' and type(world['var'].get(source[1])) is not list:
        raise Kill()
    if target and target[0] == 'var' and target[2] and target[1] in world['var'] and \
            type(world['var'][target[1]]) is not list:
        raise Kill()


def run(command, world):
    """Rows reaching the end of the command. Raises Kill, having made the changes up to there."""
    check_setup(command, world)
    source, stages, target = command
    if target and target[0] == 'var':
        # Opened in setup
        if not target[2] or target[1] not in world['var']:
            world['var'][target[1]] = []
    if source[0] == 'gen':
        rows = [(i,) for i in range(source[1])]
    elif source[0] == 'echo':
        rows = [(source[1],)]
    elif source[0] == 'file':
        rows = [(x,) for x in world['file'][source[1]]]
    elif source[0] == 'var':
        rows = list(world['var'][source[1]])
    else:
        rows = []
    for s in stages:
        k = s[0]
        if k == 'map':
            f = MAPS[s[1]][1]
            rows = [f(*r) for r in rows]
        elif k == 'head':
            rows = rows[:s[1]]
        elif k == 'tail':
            rows = rows[-s[1]:]
        elif k == 'reverse':
            rows = rows[::-1]
        elif k == 'count':
            rows = [(len(rows),)]
        elif k == 'args':
            rows = [x for _ in rows for x in run(s[1], world)]
        elif k == 'union':
            rows = rows + run(s[1], world)
    if target:
        kind, name, append = target
        if kind == 'var':
            world['var'][name].extend(rows)
            rows = []
        else:
            world['file'][name] = (world['file'].get(name, []) if append else []) + [line(r) for r in rows]
    return rows


def places(command):
    source, stages, target = command
    found = [target] if target else []
    if source[0] in ('file', 'var'):
        found.append(source)
    for s in stages:
        if s[0] in ('args', 'union'):
            found += places(s[1])
    return found


def all_present(command, world):
    """The sources exist, and append targets are usable, so that the command cannot be killed half way."""
    source, stages, target = command
    try:
        check_setup(command, world)
    except Kill:
        return False
    return all(all_present(s[1], world) for s in stages if s[0] in ('args', 'union'))



def observed_files(prefix):
    found = {}
    for name in FILES:
        path = file_name(name, prefix)
        if os.path.exists(path):
            with open(path) as f:
                found[name] = f.read()
    return found


@check('redirect', lambda: histories, quick=1600, thorough=60000, shards=(7, 8),
       rule='at least two redirections, one of them of a file or variable written by an earlier command')
def redirect(history, cx):
    """Each command is executed with redirection symbols, and with operators (on other files and variables)."""
    os.chdir(cx.scratch + '/work')
    for name in os.listdir('.'):
        if os.path.isfile(name):
            os.unlink(name)
    os.makedirs('d', exist_ok=True)
    for name in os.listdir('d'):
        os.unlink(f'd/{name}')
    s = mar.shared_session()
    for v in VARS:
        for p in ('', 'o_'):
            if s.get(p + v) is not None:
                s.env.delvar(p + v)
    world = {'file': {}, 'var': {}}
    reused = redirections = 0
    done = []
    for step in history:
        if step[0] == 'assign':
            for p in ('', 'o_'):
                cx.eq(s.command(f'{p}{step[1]} = 5'), ('', ''), f'{done}: assigning {step[1]}')
            world['var'][step[1]] = '5'
            done.append(f'{step[1]} = 5')
            continue
        _, command, spaces = step
        nested = [x[1] for x in command[1] if x[0] in ('args', 'union')]
        if not all(all_present(c, world) for c in nested):
            cx.label('nested source missing')
            continue
        text = Renderer(True, spaces, '').command(command)
        ops_text = Renderer(False, spaces, 'o_').command(command)
        if not text.strip():
            continue
        used = places(command)
        redirections += len(used)
        reused += sum(p[1] in world[p[0]] for p in used)
        done.append(text)
        try:
            rows = run(command, world)
            killed = False
        except Kill:
            killed = True
        out, err = s.command(text)
        o_out, o_err = s.command(ops_text)
        context = f'{done}'
        if killed:
            cx.label('rejected')
            cx.true(err != '' and out == '', f'{context}: {text} should have failed, output {out!r} {err!r}')
            cx.true(o_err != '' and o_out == '', f'{context}: {ops_text} should have failed, output {o_out!r} {o_err!r}')
        else:
            top_file = command[2] and command[2][0] == 'file'
            expected = '' if top_file else ''.join(line(r) + '\n' for r in rows)
            cx.eq((out, err), (expected, ''), f'{context}: output of {text}')
            cx.eq((o_out, o_err), (expected, ''), f'{context}: output of {ops_text}')
        for prefix, how in (('', text), ('o_', ops_text)):
            cx.eq(sorted(observed_files(prefix).items()),
                  sorted((k, ''.join(x + '\n' for x in v)) for k, v in world['file'].items()),
                  f'{context}: files after {how}')
            for v in VARS:
                value = world['var'].get(v)
                r = s.eval(f'load {prefix}{v}')
                if type(value) is list:
                    cx.true(r.killed is None and r.out == value, f'{context}: {v} after {how}: {r}, expected {value}')
                else:
                    cx.true(r.killed is not None, f'{context}: {v} after {how} should not be a reservoir: {r}')
    cx.nontrivial(redirections >= 2 and reused > 0)
