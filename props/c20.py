"""C20: a workspace restores everything that was saved in it, and nothing else."""
import os
import re

import hypothesis.strategies as st

from harness import mar, procs, world
from harness.core import check

WORKSPACES = ['w1', 'w2', 'é x']
STARTUP = 'CFG = 5\ndef cfgf(x):\n    return x * 2\n'

# Values of unusual types. text: the expression. saved: can it be restored? probe: expression in terms of V. expected: its value
ODD = [
    ('(i for i in range(3))', False, 'type(V).__name__', 'generator'),
    ('"abc".upper', True, 'V()', 'ABC'),
    ('[3, 1].index', True, 'V(1)', 1),
    ('int', True, 'V("5")', 5),
    ('len', True, 'V("abc")', 3),
    ('__import__("functools").partial(max, 3)', True, 'V(1)', 3),
    ('__import__("math").sqrt', True, 'V(4)', 2.0),
    ('__import__("re").compile("a+")', True, 'V.match("aab").end()', 2),
    ('__import__("datetime").date(2020, 2, 29)', True, 'V.day', 29),
    ('__import__("pathlib").Path("/x/y")', True, 'V.name', 'y'),
    ('__import__("collections").Counter("aab")', True, 'V["a"]', 2),
    ('__import__("os").path', True, 'V.basename("a/b")', 'b'),
    ('{1: (i for i in [])}', False, 'len(V)', 1),
    ('lambda n: (lambda k: k + n)', True, 'V(2)(3)', 5),
    ('(lambda n: (lambda k: k + n))(4)', True, 'V(3)', 7),
    ('[lambda y: y + 1][0]', True, 'V(1)', 2),
    ('"(" + ")"', True, 'len(V)', 2),
    ('lambda s=")": s', True, 'V("x")', 'x'),
    ('x: # comment\n x + 1', True, 'V(1)', 2),
    ('o(a=1)', True, 'V.a', 1),
    ('Color(1, 2, 3)', True, '(V.r, V.g, V.b)', (1, 2, 3)),
    ('pos', None, '1', 1),
    ('cfgf', True, 'V(4)', 8),
    ('CFG', True, 'V', 5),
    ('b"\\x00\\xff"', True, 'V', b'\x00\xff'),
    ('"a\\nb"', True, 'V', 'a\nb'),
    ('float("nan")', True, 'V != V', True),
    ('{"f": lambda y: y * 3}', True, 'V["f"](2)', 6),
    ('[lambda y, *, k=2: y * k]', True, 'V[0](4)', 8),
    ('(lambda: [(lambda r: (lambda y: r(y)))(abs)])()', True, 'V[0](-4)', 4),
]

# A function whose value depends on another variable when it is assigned. {X} is that variable.
DERIVED = ['__import__("functools").partial(X, 1)', '(lambda g: lambda y: g(y))(X)', 'lambda y=X: y']

derived = st.tuples(st.just('derived'), world.plain, world.plain, st.integers(0, len(DERIVED) - 1))
odd = st.tuples(st.just('odd'), world.plain, st.integers(0, len(ODD) - 1))
switches = st.one_of(
    st.tuples(st.just('switch'), st.sampled_from(WORKSPACES + [''])),
    st.tuples(st.just('switch'), st.sampled_from(['w1', ''])),
    st.just(('restart',)))
histories = st.builds(lambda first, rest: first + rest, st.sampled_from([[], [('switch', 'w1')], [('switch', 'w1')]]),
                      st.lists(st.one_of(world.assigns, world.assigns, world.assigns, odd, derived, world.uses, world.deletes,
                                         switches, switches), min_size=3, max_size=18))


class Odd(object):

    def __init__(self, i):
        self.saved, self.probe, self.expected = ODD[i][1:]


class Derived(object):
    pass


class Workspaces(world.World):

    def __init__(self, cx, session):
        super().__init__(cx, session)
        self.all = {'': self.vars}
        self.current = ''
        self.cwd = os.getcwd()

    def do_odd(self, v, i):
        self.ok(self.run(f'{v} = ({ODD[i][0]})'), [])
        if ODD[i][1] is None:
            self.run(f'env -d {v}')
            self.vars.pop(v, None)
        else:
            self.vars[v] = Odd(i)

    def do_derived(self, v, x, i):
        """Whether such a function is restored is not specified, (it depends on what happened to x since then), but
        it does no harm to other variables."""
        r = self.run(f'{v} = ({DERIVED[i].replace("X", x)})')
        if r.killed is None:
            self.vars[v] = Derived()

    def saved(self, workspace):
        """The workspace is about to be closed. Some variables can't be saved."""
        vars = self.all[workspace]
        lost = [v for v, x in vars.items() if isinstance(x, Odd) and not x.saved]
        for v in lost:
            del vars[v]
        return lost

    def reported(self, lost, out):
        for v in lost:
            self.cx.label('not saved')
            self.cx.true(v in out, f'{self.done}: no message about {v}, which is not saved: {out}')

    def do_switch(self, name):
        if name == self.current:
            return
        text = 'ws -c' if name == '' else f'ws -o "{name}"' if name in self.all else f'ws -n "{name}"'
        lost = self.saved(self.current)
        out, err, switched = self.s.switch(text)
        self.done.append(text)
        self.cx.true(switched, f'{self.done}: the workspace was not opened: {err}')
        self.reported(lost, out + err)
        self.opened(name)

    def do_restart(self):
        lost = self.saved(self.current)
        self.done.append('(new session)')
        out = self.s.restart()
        self.all[''] = {}
        self.reported([v for v in lost if self.current != ''], out)
        self.cx.true('Traceback' not in out, f'{self.done}: {out}')
        self.opened('')

    def opened(self, name):
        self.current = name
        self.vars = self.all.setdefault(name, {})
        for v in [v for v, x in self.vars.items() if isinstance(x, Derived)]:
            self.cx.label('derived function')
            self.run(f'env -d {v}')
            del self.vars[v]
        self.protected = {v: self.s.get(v) for v in world.PROTECTED}
        self.cx.eq(self.s.get('PWD'), self.cwd, f'{self.done}: PWD')
        self.cx.eq([str(d) for d in self.s.get('DIRS')], [self.cwd], f'{self.done}: DIRS')
        self.cx.eq(self.s.get('WORKSPACE'), name, f'{self.done}: WORKSPACE')
        r = self.s.eval('ws')
        self.cx.true(len(r.out) == 1 and r.out[0][0].name == name, f'{self.done}: ws: {r}')
        self.finish()

    # Uses of variables with odd values

    def special(self, v):
        return isinstance(self.vars.get(v), (Odd, Derived))

    def do_expression(self, v, x, i):
        if self.special(x):
            if i == 0:
                self.ok(self.run(f'{v} = ({x})'), [])
                self.vars[v] = self.vars[x]
            return
        super().do_expression(v, x, i)

    def do_read(self, v):
        x = self.vars.get(v)
        if isinstance(x, Derived):
            return
        if isinstance(x, Odd):
            r = self.run(f'gen 1 | map (i: (i, {x.probe.replace("V", v)}))')
            self.ok(r, [(0, x.expected)])
        else:
            super().do_read(v)

    def do_env(self, v):
        if self.special(v):
            r = self.run(f'env {v}')
            self.cx.true(r.killed is None and len(r.out) == 1 and r.out[0][0] == v, f'{self.done}: {r}')
        else:
            super().do_env(v)

    def do_call(self, v, n):
        f = self.vars.get(v)
        if not self.special(v) and not (isinstance(f, world.Fn) and f.var and self.special(f.var)):
            super().do_call(v, n)

    def do_invoke(self, v, n):
        if not self.special(v):
            super().do_invoke(v, n)

    def do_feed(self, v):
        x = self.vars.get(v)
        if not self.special(v) and not (isinstance(x, world.Pl) and self.special(x.body[1])):
            super().do_feed(v)

    def do_load(self, v):
        if not self.special(v):
            super().do_load(v)

    def check_rows(self, r, rows):
        super().check_rows(r, [b[:-1] + (world.Res(None),) if b and isinstance(b[-1], (Odd, Derived)) else b for b in rows])


def new_session(cx):
    s = mar.Session(home=os.path.join(cx.scratch, 'home'), config=STARTUP)
    return s


@check('history', lambda: histories, quick=700, thorough=30000, shards=(7, 8), timeout=120,
       rule='a workspace with variables is reopened')
def history(case, cx):
    os.chdir(os.path.join(cx.scratch, 'work'))
    s = new_session(cx)
    w = Workspaces(cx, s)
    w.cwd = os.getcwd()
    for step in case:
        cx.label(step[0])
        w.step(step)
    cx.nontrivial(any(w.all[name] for name in w.all if name))
    # Everything is as it was, after having been saved
    for name in list(w.all):
        w.do_switch(name)
    w.do_restart()
    for name in list(w.all):
        w.do_switch(name)
    w.do_restart()
    s.close()


# Sessions are processes

VARS = ['a', 'b', 'c', '_p']
commands = st.one_of(
    st.tuples(st.just('int'), st.sampled_from(VARS), st.integers(-3, 3)),
    st.tuples(st.just('string'), st.sampled_from(VARS), st.sampled_from(['x y', 'é', '(1)', 'None'])),
    st.tuples(st.just('function'), st.sampled_from(VARS), st.integers(1, 5)),
    st.tuples(st.just('pipeline'), st.sampled_from(VARS), st.integers(1, 4)),
    st.tuples(st.just('store'), st.sampled_from(VARS), st.integers(1, 4)),
    st.tuples(st.just('append'), st.sampled_from(VARS), st.integers(1, 4)),
    st.tuples(st.just('delete'), st.sampled_from(VARS)),
    st.tuples(st.just('use'), st.sampled_from(VARS)),
    st.tuples(st.just('use'), st.sampled_from(VARS)),
    st.tuples(st.just('ws'), st.sampled_from(['w1', 'w1', 'w2', ''])))
session = st.tuples(st.sampled_from(['', 'w1', 'w1', 'w2']), st.lists(commands, min_size=1, max_size=9), st.sampled_from([False, False, False, True]))


def uncolored(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text)


def plan(sessions):
    """The commands of each session, and the lines of output expected of each. None: unknown"""
    all = {'': {}}
    for first, commands, crash in sessions:
        current = ''
        all[''] = {}
        saved = {name: dict(vars) for name, vars in all.items()}
        texts, expected = [], []
        steps = ([('ws', first)] if first else []) + commands + ([('use', v) for v in VARS] if not crash else [])
        for step in steps:
            kind, v = step[:2]
            vars = all[current]
            x = vars.get(v)
            out = []
            if kind == 'ws':
                if v == current:
                    continue
                text = 'ws -c' if v == '' else f'ws -o {v}' if v in all else f'ws -n {v}'
                saved[current] = dict(vars)
                all.setdefault(v, {})
                saved.setdefault(v, {})
                out = [f'Workspace({v})']
                current = v
            elif kind == 'use':
                if x is None:
                    text, out = f'env {v}', [f'{v} is undefined']
                elif x[0] in ('int', 'string'):
                    text, out = f'map ([{v}])', [str(x[1])]
                elif x[0] == 'function':
                    text, out = f'map ({v}(10))', [str(10 + x[1])]
                elif x[0] == 'pipeline':
                    text, out = v, [str(i) for i in range(x[1])]
                else:
                    text, out = f'load {v}', [str(i) for i in x[1]]
            elif kind == 'delete':
                text = f'env -d {v}'
                out = None
                vars.pop(v, None)
            elif kind in ('store', 'append'):
                if kind == 'append' and x and x[0] == 'store':
                    new = x[1] + tuple(range(step[2]))
                else:
                    new = tuple(range(step[2]))
                if kind == 'append' and x and x[0] != 'store':
                    continue
                text = f'gen {step[2]} {">$" if kind == "store" else ">>$"} {v}'
                vars[v] = ('store', new)
            else:
                n = step[2]
                text = {'int': f'{v} = ({n})', 'string': f'{v} = "{n}"', 'function': f'{v} = (x: x + {n})',
                        'pipeline': f'{v} = (| gen {n} |)'}[kind]
                vars[v] = (kind, n)
            texts.append(text)
            expected.append(out)
        yield texts, expected, crash
        if crash:
            # What isn't saved is lost, except that files of reservoirs may have changed
            for name, vars in saved.items():
                after = all.get(name, {})
                for v in set(vars):
                    if vars[v][0] == 'store' and after.get(v) != vars[v]:
                        del vars[v]
                        after.pop(v, None)
            yield None, {name: [v for v in VARS if v not in vars] for name, vars in saved.items()}, None
            all = saved


@check('sessions', lambda: st.lists(session, min_size=2, max_size=4), quick=240, thorough=8000, shards=(4, 8), timeout=120,
       rule='a workspace is used in two sessions')
def sessions(case, cx):
    home = os.path.join(cx.scratch, 'home')
    mar.reset_home(home)
    done = []
    opened = []
    cleanup = {}
    for texts, expected, crash in plan(case):
        if texts is None:
            # The variables of unspecified value after a crash
            cleanup = expected
            continue
        # Forget about them
        extra = [c for name, vars in cleanup.items() if name and vars for c in [f'ws {name}'] + [f'env -d {v}' for v in vars]]
        if extra:
            p = procs.MarcelProcess(home, extra + ['ws -c'])
            outs = p.finish()
            cx.eq(p.ended, 'end', f'{done}, {extra}: {outs}')
            cx.label('crash')
        cleanup = {}
        p = procs.MarcelProcess(home, texts)
        try:
            cx.eq(p.startup, '', f'{done}: message at startup')
            for text, lines in zip(texts, expected):
                out = uncolored(p.step())
                done.append(text)
                cx.true(p.ended is None, f'{done}: the session has ended: {out}')
                if lines is not None:
                    cx.eq(out.splitlines(), lines, f'{done}')
            if crash:
                p.kill()
                done.append('(crash)')
            else:
                out = p.step()
                cx.eq(p.ended, 'end', f'{done}: {out}')
                cx.eq(out, '', f'{done}: output at the end')
                done.append('(end)')
                left = [f for d, _, fs in os.walk(os.path.join(home, '.local/share/marcel/workspace/__DEFAULT__')) for f in fs]
                cx.eq([f for f in left if f != 'history' and not f.startswith('.')], [], f'{done}: left behind')
            opened.append({t for t in texts if t.startswith('ws')})
        finally:
            p.kill()
    cx.nontrivial(any(a and b for a, b in zip(opened, opened[1:])))
