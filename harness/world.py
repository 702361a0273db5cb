"""Model of the variables of a session, and histories of commands that change them."""
import math
import os

import hypothesis.strategies as st

from harness import mar

PLAIN = ['a', 'b', 'c', 'd1', 'é', '_p', 'Ab_9']
NAMES = PLAIN + ['sort', 'cat']
IMPORTED = ['math', 'os', 'pi', 'ONE_THIRD', 'rgb_to_hsv']
PROTECTED = ['PWD', 'HOME', 'USER', 'HOST', 'MARCEL_VERSION', 'DIRS', 'pos']
UNDEFINED = object()

# Expressions, in terms of another variable X. (marcel text, python function of the value of X)
EXPRESSIONS = [('X', lambda x: x), ('(X, 1)', lambda x: (x, 1)), ('[X]', lambda x: [x]), ('str(type(X))', lambda x: str(type(x))),
               ('{1: X}', lambda x: {1: x}), ('X if X is None else 7', lambda x: x if x is None else 7)]
LITERALS = ['None', '0', '1.5', "'x'", '""', '[]', '[1, 2]', '{}', '{3: [4]}', '(1,)', '()', 'True', "b'z'", '{1}', 'range(3)', '10 ** 30']
# Functions of one argument, using X when called
FUNCTIONS = [('x: (x, 1)', lambda get, x: (x, 1)), ('lambda x: (X, x)', lambda get, x: (get(), x)),
             ('x: [x, X]', lambda get, x: [x, get()]), ('lambda x, y=2: x + y', lambda get, x: x + 2),
             ('lambda *t: (t, X)', lambda get, x: ((x,), get()))]

name = st.sampled_from(NAMES + ['a', 'a', 'b'])
plain = st.sampled_from(PLAIN + ['a', 'a', 'b'])
string = st.one_of(st.sampled_from(['5', 'hello', 'sort', 'a', 'None', '-x', '../y', 'a,b']), st.text("abé.,:-+ '", min_size=1, max_size=5))

assigns = st.one_of(
    st.tuples(st.just('string'), name, string),
    st.tuples(st.just('literal'), name, st.sampled_from(LITERALS)),
    st.tuples(st.just('expression'), name, plain, st.integers(0, len(EXPRESSIONS) - 1)),
    st.tuples(st.just('expression'), name, plain, st.just(0)),
    st.tuples(st.just('function'), name, plain, st.integers(0, len(FUNCTIONS) - 1)),
    st.tuples(st.just('pipeline'), name, st.one_of(
        st.tuples(st.just('gen'), st.integers(1, 3)),
        st.tuples(st.just('param'), name),
        st.tuples(st.just('pass'), plain),
        st.tuples(st.just('store'), name, st.integers(1, 4)),
        st.tuples(st.just('storeparam'), name, name),
        st.tuples(st.just('import'), name),
        st.tuples(st.just('importparam'), name, name),
        st.tuples(st.just('delete'), name),
        st.tuples(st.just('deleteparam'), name, name))),
    st.tuples(st.just('import'), st.sampled_from(['import math', 'import math pi', 'import os.path', 'import colorsys *', 'import os'])),
    st.tuples(st.just('importas'), name, st.sampled_from([('math', None), ('math', 'pi'), ('os.path', None), ('colorsys', 'ONE_THIRD')])),
    st.tuples(st.just('store'), name, st.integers(1, 3)))
uses = st.one_of(
    st.tuples(st.just('read'), plain),
    st.tuples(st.just('env'), st.sampled_from(NAMES + IMPORTED)),
    st.tuples(st.just('call'), plain, st.integers(0, 5)),
    st.tuples(st.just('invoke'), name, st.integers(0, 5)),
    st.tuples(st.just('feed'), name),
    st.tuples(st.just('load'), name),
    st.tuples(st.just('append'), plain, st.integers(0, 5)))
deletes = st.tuples(st.just('delete'), st.sampled_from(NAMES + NAMES + IMPORTED))
others = st.one_of(
    st.tuples(st.just('fail'), name, st.sampled_from(['{v} = (1 // 0)', '{v} = (nosuchvar)', '{v} = (int("x"))', '{v} = ( )(',
                                                      'import -a {v} nosuchmodule', 'import -a {v} math nosuch', '{v} =',
                                                      'import -a {v} json.nosuch', 'import -a {v} ""'])),
    st.tuples(st.just('protected'), st.sampled_from(PROTECTED), st.sampled_from(['{v} = 5', 'env -d {v}', 'import -a {v} math', 'import -a {v} math pi', 'import -a {v} os.path', '{v} = (5)', 'gen 3 >$ {v}',
                                                                                  '{v} = (x: x)', '{v} = (| gen 3 |)'])),
    st.tuples(st.just('loop'), name, name, st.integers(1, 3)),
    st.tuples(st.just('loopdelete'), name, name))
histories = st.lists(st.one_of(assigns, assigns, assigns, uses, uses, deletes, others), min_size=3, max_size=14)


class Data(object):

    def __init__(self, value):
        self.value = value


class Fn(object):

    def __init__(self, var, f):
        self.var, self.f = var, f


class Pl(object):

    def __init__(self, body):
        self.body = body


class Res(object):

    def __init__(self, rows):
        self.rows = rows


def quoted(s):
    return f'"{s}"'


class World(object):

    def __init__(self, cx, session=None):
        self.cx = cx
        self.s = session or mar.shared_session()
        self.protected = {v: self.s.get(v) for v in PROTECTED}
        for v in NAMES + IMPORTED + ['rgb_to_yiq', 'yiq_to_rgb', 'hls_to_rgb', 'hsv_to_rgb', 'rgb_to_hls', 'ONE_SIXTH', 'TWO_THIRD']:
            if self.s.env.hasvar(v):
                self.s.env.delvar(v)
        self.vars = {}
        self.done = []

    def run(self, text):
        r = self.s.eval(text)
        self.done.append(text)
        self.cx.eq(r.stderr, '', f'{self.done}: stderr')
        return r

    def ok(self, r, rows):
        self.cx.true(r.killed is None, f'{self.done}: {r.killed}')
        self.cx.eq(r.out, rows, f'{self.done}')

    def bad(self, r):
        self.cx.true((r.killed is not None or r.errors) and not r.values, f'{self.done}: expected to fail: {r}')

    # ------------------------------------------------------------------------------------------------------------------

    def step(self, op):
        kind = op[0]
        getattr(self, 'do_' + kind)(*op[1:])

    def do_string(self, v, s):
        self.ok(self.run(f'{v} = {quoted(s)}'), [])
        self.vars[v] = Data(s)

    def do_literal(self, v, text):
        self.ok(self.run(f'{v} = ({text})'), [])
        self.vars[v] = Data(eval(text))

    def do_expression(self, v, x, i):
        text, f = EXPRESSIONS[i]
        target = self.vars.get(x)
        if target is not None and not isinstance(target, Data) and i > 0:
            return
        r = self.run(f'{v} = ({text.replace("X", x)})')
        if target is None:
            self.cx.label('undefined operand')
            self.bad(r)
        elif i == 0:
            self.ok(r, [])
            self.vars[v] = target
        else:
            self.ok(r, [])
            self.vars[v] = Data(f(target.value))

    def do_function(self, v, x, i):
        text, f = FUNCTIONS[i]
        self.ok(self.run(f'{v} = ({text.replace("X", x)})'), [])
        self.vars[v] = Fn(x if 'X' in text else None, f)

    def do_pipeline(self, v, body):
        k = body[0]
        text = {'gen': lambda: f'gen {body[1]}',
                'param': lambda: f'{body[1]}: gen 1 | map (i: (i, {body[1]}))',
                'pass': lambda: f'map (i: (i, {body[1]}))',
                'store': lambda: f'gen {body[2]} >$ {body[1]}',
                'storeparam': lambda: f'{body[1]}: gen 2 | map (i: (i, {body[1]})) >$ {body[2]}',
                'import': lambda: f'import -a {body[1]} math pi',
                'importparam': lambda: f'{body[1]}: import -a {body[2]} math pi',
                'delete': lambda: f'env -d {body[1]}',
                'deleteparam': lambda: f'{body[1]}: env -d {body[2]}'}[k]()
        self.ok(self.run(f'{v} = (| {text} |)'), [])
        self.vars[v] = Pl(body)

    def do_import(self, text):
        self.ok(self.run(text), [])
        new = {'import math': {'math': math}, 'import math pi': {'pi': math.pi}, 'import os.path': {'os': os}, 'import os': {'os': os},
               'import colorsys *': None}[text]
        if new is None:
            import colorsys
            new = {'ONE_THIRD': colorsys.ONE_THIRD, 'rgb_to_hsv': colorsys.rgb_to_hsv}
        for v, x in new.items():
            self.vars[v] = Data(x)

    def do_importas(self, v, target):
        import importlib
        module, symbol = target
        self.ok(self.run(f'import -a {v} {module} {symbol or ""}'), [])
        m = importlib.import_module(module)
        self.vars[v] = Data(getattr(m, symbol) if symbol else m)

    # A reservoir may be the value of several variables
    def stored(self, v, rows):
        if isinstance(self.vars.get(v), Res):
            self.vars[v].rows = rows
        else:
            self.vars[v] = Res(rows)

    def do_store(self, v, n):
        r = self.run(f'gen {n} >$ {v}')
        self.ok(r, [])
        self.stored(v, [(i,) for i in range(n)])

    def do_read(self, v):
        r = self.run(f'gen 1 | map (i: (i, {v}))')
        if v not in self.vars:
            self.bad(r)
        elif isinstance(self.vars[v], Data):
            self.ok(r, [(0, self.vars[v].value)])
        else:
            self.cx.true(r.killed is None and len(r.values) == 1, f'{self.done}: {r}')

    def do_env(self, v):
        r = self.run(f'env {v}')
        if v not in self.vars:
            self.cx.true(r.killed is not None and not r.out, f'{self.done}: expected undefined: {r}')
        elif isinstance(self.vars[v], Data):
            self.ok(r, [(v, self.vars[v].value)])
        else:
            self.cx.true(r.killed is None and len(r.out) == 1 and r.out[0][0] == v, f'{self.done}: {r}')

    def do_call(self, v, n):
        f = self.vars.get(v)
        if isinstance(f, Data) and callable(f.value):
            return
        r = self.run(f'gen 1 | map (i: [{v}({n})])')
        if not isinstance(f, Fn):
            self.bad(r)
        elif f.var and not isinstance(self.vars.get(f.var), Data):
            if f.var not in self.vars:
                self.cx.label('function of an undefined variable')
                self.bad(r)
        else:
            self.cx.label('called')
            self.ok(r, [[f.f(lambda: self.vars[f.var].value, n)]])

    def execute(self, v, arg):
        """Effects and output of running v as a pipeline. arg: None if no argument is passed."""
        body = self.vars[v].body
        k = body[0]
        if k == 'gen':
            return [(i,) for i in range(body[1])]
        if k == 'param':
            return [(0, arg)]
        if k == 'store':
            self.stored(body[1], [(i,) for i in range(body[2])])
            return []
        if k == 'storeparam':
            if body[1] != body[2]:
                self.stored(body[2], [(0, arg), (1, arg)])
            return []
        if k == 'import':
            self.vars[body[1]] = Data(math.pi)
            return []
        if k == 'importparam':
            if body[1] != body[2]:
                self.vars[body[2]] = Data(math.pi)
            return []
        if k == 'delete':
            return self.delete(body[1])
        if k == 'deleteparam':
            return [(body[2], arg)] if body[1] == body[2] else self.delete(body[2])

    def delete(self, v):
        if v not in self.vars:
            return []
        x = self.vars.pop(v)
        return [(v, x)]

    def check_rows(self, r, rows):
        self.cx.true(r.killed is None, f'{self.done}: {r.killed}')
        self.cx.true(len(rows) == len(r.out), f'{self.done}: expected {rows}, got {r}')
        for a, b in zip(r.out, rows):
            if isinstance(b[-1], Data):
                self.cx.eq(a, b[:-1] + (b[-1].value,), f'{self.done}')
            elif isinstance(b[-1], (Fn, Pl, Res)):
                self.cx.eq(a[:-1], b[:-1], f'{self.done}')
            else:
                self.cx.eq(a, b, f'{self.done}')

    def do_invoke(self, v, n):
        x = self.vars.get(v)
        if x is None:
            # An operator or an executable again, or neither
            if v == 'sort':
                self.cx.label('operator')
                self.ok(self.run(f'gen {n + 2} | sort (x: -x)'), [(i,) for i in range(n + 1, -1, -1)])
            elif v == 'cat' and n == 0:
                self.cx.label('executable')
                self.ok(self.run('gen 2 | cat'), [('0',), ('1',)])
            return
        if isinstance(x, Data) and x.value is None:
            return  # A variable that is None doesn't count as one that can't be executed
        if not isinstance(x, Pl):
            r = self.run(v)
            self.cx.true(r.killed is not None and not r.values, f'{self.done}: not executable: {r}')
            return
        k = x.body[0]
        if k == 'pass':
            return
        if k in ('param', 'storeparam', 'importparam', 'deleteparam'):
            r = self.run(f'{v} ({n})')
            self.check_rows(r, self.execute(v, n))
        else:
            r = self.run(v)
            self.check_rows(r, self.execute(v, None))

    def do_feed(self, v):
        x = self.vars.get(v)
        if isinstance(x, Pl) and x.body[0] == 'pass':
            r = self.run(f'gen 2 | {v}')
            y = self.vars.get(x.body[1])
            if y is None:
                self.bad(r)
            elif isinstance(y, Data):
                self.cx.label('fed')
                self.ok(r, [(0, y.value), (1, y.value)])

    def do_load(self, v):
        r = self.run(f'load {v}')
        x = self.vars.get(v)
        if isinstance(x, Res):
            self.cx.label('loaded')
            self.ok(r, x.rows)
        else:
            self.bad(r)

    def do_append(self, v, n):
        x = self.vars.get(v)
        if isinstance(x, Data) and type(x.value) is list:
            self.cx.label('shared list modified')
            self.run(f'({v}.append({n}))')
            x.value.append(n)

    def do_delete(self, v):
        r = self.run(f'env -d {v}')
        self.check_rows(r, self.delete(v))

    def do_fail(self, v, text):
        self.bad(self.run(text.format(v=v)))

    def do_protected(self, v, text):
        r = self.run(text.format(v=v))
        self.cx.true(r.killed is not None and not r.values, f'{self.done}: expected to be rejected: {r}')
        self.cx.true(self.s.get(v) is self.protected[v] and self.s.env.hasvar(v), f'{self.done}: {v} has changed to {self.s.get(v)!r}')

    def do_loop(self, v, param, n):
        self.ok(self.run(f'gen {n} | args (| {param}: gen 1 | map (i: [{param}]) >$ {v} |)'), [])
        if v != param:
            self.stored(v, [[n - 1]])

    def do_loopdelete(self, v, param):
        r = self.run(f'gen 2 | args (| {param}: env -d {v} |)')
        if v == param:
            self.ok(r, [(v, 0), (v, 1)])
        else:
            self.check_rows(r, self.delete(v))

    def finish(self):
        """All ways of reading agree, for all variables."""
        r = self.s.eval('env')
        self.cx.eq(sorted(x[0] for x in r.out), [x[0] for x in r.out], f'{self.done}: env is not sorted')
        listed = {x[0]: x[1] for x in r.out}
        self.cx.eq(len(listed), len(r.out), f'{self.done}: env duplicates a variable')
        for v in NAMES + IMPORTED:
            self.cx.eq(v in listed, v in self.vars, f'{self.done}: env lists {v}')
            if isinstance(self.vars.get(v), Data):
                self.cx.eq(listed[v], self.vars[v].value, f'{self.done}: env value of {v}')
            self.do_env(v)
            if v in PLAIN:
                self.do_read(v)
        r = self.s.eval('env -p 1')
        self.cx.eq('d1' in [x[0] for x in r.out], 'd1' in self.vars, f'{self.done}: env -p')
        self.cx.true(all('1' in x[0] for x in r.out), f'{self.done}: env -p {r.out}')
        for v in NAMES:
            self.do_invoke(v, 1)
        for v in PLAIN:
            self.do_call(v, 2)
            self.do_load(v)
        for v in PROTECTED:
            self.cx.true(self.s.get(v) is self.protected[v], f'{self.done}: {v} has changed')
