"""C21: a workspace has one owner at a time; its existence changes only on request."""
import os
import re

import hypothesis.strategies as st

from harness import mar, procs
from harness.core import check

NAMES = ['w1', 'w1', 'w1', 'w2', 'w2', 'é x']
INVALID = ['.', '..', 'a/b', '../x', '/tmp', 'w1/', '', '__DEFAULT__', 'x' * 256]
ACTORS = [0, 1, 2]

quoted = lambda name: "'" + name + "'"

ops = st.one_of(
    st.tuples(st.just('new'), st.sampled_from(NAMES)),
    st.tuples(st.just('new'), st.just('w1')),
    st.tuples(st.just('open'), st.just('w1')),
    st.tuples(st.just('open'), st.just('w1')),
    st.tuples(st.just('open'), st.just('w1')),
    st.tuples(st.just('open'), st.sampled_from(NAMES)),
    st.tuples(st.just('open'), st.sampled_from(NAMES)),
    st.tuples(st.just('close')),
    st.tuples(st.just('delete'), st.sampled_from(NAMES)),
    st.tuples(st.just('list')),
    st.tuples(st.just('which')),
    st.tuples(st.just('assign'), st.integers(1, 99)),
    st.tuples(st.just('store'), st.integers(1, 4)),
    st.tuples(st.just('use')),
    st.tuples(st.just('home'), st.sampled_from(['d1', '/x/y'])),
    st.tuples(st.just('broken')),
    st.tuples(st.just('invalid'), st.sampled_from(['new', 'open', 'delete']), st.sampled_from(INVALID)),
    st.tuples(st.just('end')),
    st.tuples(st.just('crash')))
steps = st.lists(st.tuples(st.sampled_from(ACTORS), ops), min_size=4, max_size=25)
# Is actor i a child process of actor 0?
cases = st.tuples(steps, st.lists(st.booleans(), min_size=3, max_size=3))


def uncolored(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text)


def text_of(op):
    kind = op[0]
    arg = op[1] if len(op) > 1 else None
    return {'new': lambda: f'ws -n {quoted(arg)}',
            'open': lambda: f'ws -o {quoted(arg)}' if len(arg) % 2 else f'ws {quoted(arg)}',
            'close': lambda: 'ws -c',
            'delete': lambda: f'ws -d {quoted(arg)}',
            'list': lambda: 'ws -l',
            'which': lambda: 'ws',
            'assign': lambda: f'a = ({arg})',
            'store': lambda: f'gen {arg} >$ r',
            'use': lambda: 'env | select (k, v: k in "ar") | (k, v: [k, v if k == "a" else type(v).__name__])',
            'home': lambda: f'ws -h {arg}',
            'broken': lambda: 'ws -b',
            'invalid': lambda: f'ws --{arg} {quoted(op[2])}'}[kind]()


class Workspaces(object):
    """The model: existing workspaces, and who has opened them"""

    def __init__(self, cwd):
        self.cwd = cwd
        self.home = {}      # workspace -> home
        self.vars = {}      # workspace -> set of variables
        self.saved = {}
        self.current = {}   # actor -> workspace or '' for the default one
        self.default = {}   # actor -> variables of its default workspace

    def start(self, actor):
        self.current[actor] = ''
        self.default[actor] = {}

    def vars_of(self, actor):
        w = self.current[actor]
        return self.vars[w] if w else self.default[actor]

    def describe(self, w):
        home = self.home.get(w)
        return f'Workspace({w})' if home is None else f'Workspace({w} @ {home})'

    def leave(self, actor):
        w = self.current[actor]
        if w:
            self.saved[w] = dict(self.vars[w])

    def crash(self, actor):
        w = self.current.pop(actor)
        if w:
            # A reservoir's file exists or not, regardless of what has been saved
            self.vars[w] = {k: v for k, v in self.saved[w].items() if k == 'a'}
            self.lost = w

    def owner(self, w):
        owners = [a for a, x in self.current.items() if x == w]
        return owners[0] if owners else None

    def run(self, actor, op):
        """The expected output: text, or a regular expression matching an error message"""
        kind = op[0]
        w = op[1] if len(op) > 1 else None
        mine = self.current[actor]
        if kind == 'new':
            if w in self.home:
                return re.compile('already exists')
            self.leave(actor)
            self.home[w], self.vars[w], self.saved[w] = None, {}, {}
            self.current[actor] = w
            return f'Workspace({w})'
        if kind == 'open':
            if w not in self.home:
                return re.compile('no workspace named')
            if w == mine:
                return ''
            if self.owner(w) is not None:
                return re.compile('in use')
            self.leave(actor)
            self.current[actor] = w
            # The home directory isn't known before it has been opened
            return re.compile(f'^{re.escape("Workspace(" + w)}( @ .*)?\\)$')
        if kind == 'close':
            self.leave(actor)
            self.current[actor] = ''
            return 'Workspace()' if mine else ''
        if kind == 'delete':
            if w == mine:
                return re.compile('in use|using')
            if w not in self.home:
                return re.compile('no workspace named')
            if self.owner(w) is not None:
                return re.compile('in use')
            del self.home[w], self.vars[w], self.saved[w]
            return ''
        if kind == 'list':
            return '\n'.join(['Workspace()'] + [self.describe(w) for w in sorted(self.home)])
        if kind == 'which':
            return self.describe(mine)
        if kind == 'assign':
            self.vars_of(actor)['a'] = w
            return ''
        if kind == 'store':
            self.vars_of(actor)['r'] = 'Reservoir'
            return ''
        if kind == 'use':
            return '\n'.join(str([k, v]) for k, v in sorted(self.vars_of(actor).items()))
        if kind == 'home':
            if not mine:
                return re.compile('Default workspace does not have a home directory')
            self.home[mine] = os.path.join(self.cwd, w)
            return f'{self.describe(mine)}'
        if kind == 'broken':
            return ''
        if kind == 'invalid':
            return re.compile('already exists|legal filename|no workspace named|using')


def snapshot(home):
    """Files of marcel, except the parts that any process may change"""
    return {os.path.join(d, x)[len(home):]
            for d, dirs, files in os.walk(home) for x in dirs + files
            if 'script' not in x and '__DEFAULT__' not in d and not x.startswith('.WORKSPACE')}


def check_files(cx, home, m, message):
    """The files are those of the workspaces that exist"""
    config, data = os.path.join(home, '.config/marcel/workspace'), os.path.join(home, '.local/share/marcel/workspace')
    expected = sorted(list(m.home) + ['__DEFAULT__'])
    cx.eq(sorted(os.listdir(config)), expected, f'{message}: directories in {config}')
    cx.eq(sorted(os.listdir(data)), expected, f'{message}: directories in {data}')
    for base in '.config/marcel', '.local/share/marcel':
        cx.eq(os.listdir(os.path.join(home, base, 'broken')), [], f'{message}: broken workspaces')
    cx.eq(sorted(x for x in os.listdir(os.path.join(home, '.config/marcel')) if x != 'VERSION'), ['broken', 'workspace'], f'{message}')
    for w in m.home:
        markers = [f for f in os.listdir(os.path.join(config, w)) if f.startswith('.WORKSPACE')]
        cx.eq(len(markers), 1, f'{message}: markers {markers}')


@check('history', lambda: cases, quick=240, thorough=20000, shards=(6, 8), timeout=120,
       rule='a workspace is opened that is, or was, opened in another process')
def history(case, cx):
    steps, children = case
    home = os.path.join(cx.scratch, 'home')
    mar.reset_home(home)
    os.chdir(os.path.join(cx.scratch, 'work'))
    m = Workspaces(os.getcwd())
    running = {}
    log = []
    opened = {}
    interesting = False

    def rest(actor, start):
        commands = []
        for a, op in steps[start:]:
            if a == actor:
                if op[0] in ('end', 'crash'):
                    break
                commands.append(text_of(op))
        return commands

    def stop(actor):
        p = running.pop(actor)
        out = p.step()
        log.append((actor, 'end'))
        cx.eq(p.ended, 'end', f'{log}: {out}')
        cx.eq(out, '', f'{log}: output at the end')
        m.leave(actor)
        del m.current[actor]

    try:
        for i, (actor, op) in enumerate(steps):
            if actor not in running:
                if op[0] in ('end', 'crash'):
                    continue
                ppid = running[0].pid if children[actor] and actor and 0 in running else None
                p = running[actor] = procs.MarcelProcess(home, rest(actor, i), ppid=ppid)
                m.start(actor)
                cx.eq(p.startup, '', f'{log}: message at startup of {actor}')
                cx.true(p.ended is None, f'{log}: {actor} has ended')
            if op[0] == 'end':
                stop(actor)
            elif op[0] == 'crash':
                running.pop(actor).kill()
                log.append((actor, 'crash'))
                w = m.current[actor]
                m.crash(actor)
                if w and m.saved[w] != {k: v for k, v in m.vars[w].items()}:
                    # Were there reservoirs? Then it's unspecified if they are still there.
                    m.vars[w] = dict(m.vars[w], r=None)
            else:
                text = text_of(op)
                log.append((actor, text))
                if op[0] in ('open', 'delete') and op[1] in m.home:
                    interesting = interesting or opened.get(op[1], actor) != actor
                if op[0] == 'use' and m.vars_of(actor).get('r', '') is None:
                    op = ('unknown',)
                before = snapshot(home)
                expected = m.run(actor, op) if op[0] != 'unknown' else None
                out = uncolored(running[actor].step()).rstrip('\n')
                cx.true(running[actor].ended is None, f'{log}: the session has ended: {out}')
                if op[0] == 'use' and isinstance(expected, str):
                    out = '\n'.join(sorted(out.splitlines()))
                if isinstance(expected, str):
                    cx.eq(out, expected, f'{log}')
                elif expected is not None:
                    cx.label(expected.pattern if '@' not in expected.pattern else 'opened')
                    cx.true(expected.search(out) and len(out.splitlines()) == 1, f'{log}: expected {expected.pattern}, got {out!r}')
                if op[0] in ('invalid', 'list', 'which', 'use', 'broken') or isinstance(expected, re.Pattern) and '@' not in expected.pattern:
                    cx.eq(snapshot(home), before, f'{log}: files')
                if op[0] in ('new', 'open') and m.current[actor] == op[1]:
                    opened[op[1]] = actor
                check_files(cx, home, m, log)
        for actor in list(running):
            stop(actor)
        # Everything can be opened
        for w in sorted(m.home):
            p = running[0] = procs.MarcelProcess(home, [f'ws {quoted(w)}', text_of(('use',)), 'ws -l', 'ws -c', f'ws -d {quoted(w)}', 'ws -l'])
            m.start(0)
            outs = [uncolored(out).rstrip('\n') for out in p.finish()]
            log.append(f'(open and delete {w})')
            cx.eq((p.startup, p.ended), ('', 'end'), f'{log}: {outs}')
            outs[1] = '\n'.join(sorted(outs[1].splitlines()))
            m.current[0] = w
            if m.vars[w].get('r', '') is None:
                outs[1] = m.vars[w] = ''
                use = ''
            else:
                use = m.run(0, ('use',))
            listed = m.run(0, ('list',))
            del m.home[w]
            cx.eq(outs, [f'{outs[0]}', use, listed, 'Workspace()', '', m.run(0, ('list',)), ''], f'{log}')
            check_files(cx, home, m, log)
            m.current.pop(0)
            running.pop(0)
    finally:
        for p in running.values():
            p.kill()
    cx.nontrivial(interesting)


# Interleavings of modifications of files, by two or three processes

act = st.sampled_from(['open', 'open', 'open', 'open close', 'open close', 'open close open', 'delete', 'new'])
schedules = st.tuples(
    st.sampled_from(['unowned', 'unowned', 'dead', 'dead', 'missing']),
    st.lists(act, min_size=2, max_size=3),
    st.lists(st.integers(0, 2), max_size=60))
COMMANDS = {'open': 'ws w', 'close': 'ws -c', 'delete': 'ws -d w', 'new': 'ws -n w'}
MESSAGES = re.compile('^(Workspace w is in use by another process.|There is no workspace named w.|Workspace w already exists.|)$')


@check('schedules', lambda: schedules, quick=240, thorough=20000, shards=(4, 8), timeout=120,
       rule='processes alternate between modifications of the files of a workspace')
def interleavings(case, cx):
    state, plans, schedule = case
    # Starting or switching while another process is in the middle of creating or deleting a workspace is unspecified: the
    # workspace is incomplete.
    if 'delete' in plans or 'new' in plans:
        plans = [plan.split()[0] for plan in plans]
        if 'delete' in plans and 'new' in plans:
            plans = [plan for plan in plans if plan != 'new']
    home = os.path.join(cx.scratch, 'home')
    mar.reset_home(home)
    os.chdir(os.path.join(cx.scratch, 'work'))
    cx.label(state)
    first = procs.MarcelProcess(home, [] if state == 'missing' else ['ws -n w', 'a = (5)', 'ws -c'] + (['ws w'] if state == 'dead' else []))
    running = []
    if state == 'dead':
        for _ in range(4):
            first.step()
    else:
        first.finish()
    log = []
    try:
        # Start all of them
        for plan in plans:
            commands = [COMMANDS[c] for c in plan.split()]
            p = procs.MarcelProcess(home, commands, points=True)
            p.todo = list(commands)
            p.has = False
            running.append(p)
            p.startup = p.read()
            while p.startup is None:
                p.startup = p.advance()
            cx.eq((p.startup, p.ended), ('', None), 'startup')
        first.kill()
        alternations = 0
        last = None
        successes = 0
        deleted = created = False
        starts = {}
        while any(p.todo for p in running):
            candidates = [p for p in running if p.todo]
            p = candidates[(schedule[0] if schedule else 0) % len(candidates)]
            schedule = schedule[1:]
            i = running.index(p)
            command = p.todo[0]
            if p.at is not None and last is not p:
                alternations += 1
            last = p
            if p.at is None and command == 'ws -c':
                p.has = False
            out = p.advance()
            cx.true(p.ended is None, f'{state}, {log}: {i} has ended during {command}: {out}')
            if out is None:
                log.append((i, command, p.at))
                continue
            out = uncolored(out).rstrip('\n')
            log.append((i, command, out))
            p.todo.pop(0)
            if command == 'ws -c':
                cx.true(out in ('Workspace()', ''), f'{state}, {log}')
            elif out == 'Workspace(w)':
                p.has = True
                successes += 1
                created = created or command == 'ws -n w'
            else:
                cx.true(MESSAGES.match(out), f'{state}, {log}: unexpected output')
                if command == 'ws -d w' and out == '':
                    deleted = True
            owners = [running.index(q) for q in running if q.has]
            cx.true(len(owners) <= 1, f'{state}, {log}: {owners} have opened the workspace')
            cx.true(not (deleted and owners), f'{state}, {log}: {owners} have opened the deleted workspace')
        # Someone succeeds
        if state == 'missing':
            cx.eq(created, 'new' in plans, f'{state}, {log}: created')
        else:
            cx.true(successes or deleted or set(plans) == {'new'}, f'{state}, {log}: nobody succeeds')
        cx.nontrivial(alternations >= 2)
        for p in running:
            p.finish()
            cx.eq(p.ended, 'end', f'{state}, {log}')
        exists = not deleted and (state != 'missing' or created)
        p = procs.MarcelProcess(home, ['ws -l', 'ws w', 'map (a)'])
        running.append(p)
        outs = [uncolored(out).rstrip('\n') for out in p.finish()]
        value = '5' if state != 'missing' else None
        cx.eq((p.startup, p.ended), ('', 'end'), f'{state}, {log}: {outs}')
        if exists:
            cx.eq(outs[:2], ['Workspace()\nWorkspace(w)', 'Workspace(w)'], f'{state}, {log}: {outs}')
            if value:
                cx.eq(outs[2], '5', f'{state}, {log}')
        else:
            cx.eq(outs[:2], ['Workspace()', 'There is no workspace named w.'], f'{state}, {log}')
    finally:
        first.kill()
        for p in running:
            p.kill()
