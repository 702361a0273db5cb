"""C31: sql executes its statement once per input, within the transactions asked for."""
import contextlib
import io

import hypothesis.strategies as st

from harness import fakedb, mar
from harness.core import check, short

VERBS = {'insert': 'insert into t values (%s, %s)', 'constant': "insert into t values (7, 'seven')", 'copy': 'insert into t select * from t', 'all': 'select * from t', 'columns': 'select(a),b from t',
         'one': 'select * from t where a = %s', 'some': 'select b from t where a = %s or b = %s', 'update': 'update t set b = %s where a = %s', 'delete': 'delete from t where a = %s', 'clear': 'delete from t'}
ARITY = {k: v.count('%s') for k, v in VERBS.items()}
QUERIES = {'all', 'columns', 'one', 'some'}

SCALARS = st.one_of(st.integers(-3, 5), st.integers(-3, 5), st.sampled_from(['', 'x', "it's", '"', '%s', '5', 'é\n', '\\', '7', None, 1.5, True, b'\x00', 10 ** 20]), st.text(max_size=3))
ROWS = st.lists(st.tuples(SCALARS, SCALARS), max_size=5)


@st.composite
def texts(draw, kind):
    """A statement, with some freedom of layout"""
    text = VERBS[kind]
    verb, rest = text.split(' ', 1) if not text.startswith('select(') else ('select', text[6:])
    verb = draw(st.sampled_from([verb, verb, verb.upper(), verb.capitalize()]))
    space = draw(st.sampled_from([' ', ' ', '  ', '\n', '\t '])) if not rest.startswith('(') else ''
    if kind == 'all' and draw(st.booleans()):
        return draw(st.sampled_from(['', ' ', '\n'])) + verb + '*' + rest[1:]
    return draw(st.sampled_from(['', '', '', ' ', '\n  '])) + verb + space + rest + draw(st.sampled_from(['', '', ' ']))


@st.composite
def cases(draw):
    # Few different values: statements change several rows
    narrow = draw(st.integers(0, 3)) == 0
    kind = draw(st.sampled_from(['update', 'update', 'update', 'delete', 'copy'] if narrow else ['insert'] * 5 + sorted(VERBS)))
    n = ARITY[kind]
    text = draw(texts(kind))
    options = draw(st.sampled_from([(), (), (), ('autocommit',), ('commit', 1), ('commit', 2), ('commit', 3), ('commit', 5)]) if not narrow else st.sampled_from([('commit', 2), ('commit', 3), ('commit', 4), ('commit', 5), ('commit', 7)]))
    counts = draw(st.booleans())
    placement = draw(st.sampled_from(['first', 'stream', 'stream', 'stream', 'stream', 'case', 'args']))
    good = st.tuples(*[st.integers(0, 5), st.integers(0, 1)][2 - n:]) if narrow else st.tuples(*[SCALARS] * n) if n != 1 else st.one_of(SCALARS, SCALARS.map(lambda x: (x,)))
    odd = st.one_of(SCALARS, st.tuples(SCALARS, SCALARS, SCALARS), st.just(()), st.just((1, (2, 3))))
    inputs = draw(st.lists(st.one_of(good, good, good, good, st.just(ZeroDivisionError)), max_size=8))
    if draw(st.integers(0, 3)) == 0:
        inputs.insert(draw(st.integers(0, len(inputs))), draw(odd))
    if draw(st.booleans()):
        inputs = [x if type(x) is not tuple or draw(st.booleans()) else list(x) for x in inputs]
    if placement == 'args':
        if n == 1:
            inputs = [x for x in inputs if type(x) not in (tuple, list) and x is not ZeroDivisionError]
        else:
            placement = 'case'
    if placement == 'first':
        args = draw(st.one_of(st.tuples(*[SCALARS] * n), st.tuples(*[SCALARS] * n), st.lists(SCALARS, max_size=3).map(tuple)))
    elif placement in ('stream', 'case') and n and draw(st.integers(0, 4)) == 0:
        args = draw(st.tuples(*[SCALARS] * n))
    else:
        args = None
    faults = {}
    if draw(st.integers(0, 2)) == 0:
        faults = {draw(st.sampled_from(['execute', 'execute', 'execute', 'commit', 'commit', 'connect', 'fetch'])): draw(st.integers(0, 3))}
    downstream = draw(st.sampled_from([None, None, None, 'ok', 'error', 'kill'] + (['head'] if placement != 'case' else [])))
    rows = draw(st.lists(st.tuples(st.integers(0, 1), st.just('')), min_size=2, max_size=7)) if narrow else draw(ROWS)
    return kind, text, options, counts, placement, inputs, args, rows, faults, downstream, draw(st.sampled_from(['cli', 'cli', 'api']))


class Failed(Exception):
    pass


class Model(object):

    def __init__(self, rows, options, counts, kind, text, faults):
        self.committed = list(rows)
        self.snapshots = []
        self.pending = None
        self.total = 0
        self.kind, self.text, self.options, self.counts, self.faults = kind, text, options, counts, faults
        self.calls = {}
        self.out = []

    def call(self, kind):
        n = self.calls.get(kind, 0)
        self.calls[kind] = n + 1
        if self.faults.get(kind) == n:
            raise Failed

    def publish(self):
        if self.pending is not None and self.pending != self.committed:
            self.committed = self.pending
            self.snapshots.append(list(self.pending))
        self.pending = None

    def commit(self):
        self.call('commit')
        self.publish()

    def open(self):
        self.call('connect')
        self.pending = None
        self.total = 0

    def statement(self, args):
        rows = self.committed if self.pending is None else self.pending
        self.call('execute')
        try:
            self.pending, n, results = fakedb.interpret(self.text, args, rows)
        except Exception:
            raise Failed
        if 'autocommit' in self.options:
            self.publish()
        if results is not None:
            self.call('fetch')
            return list(results)
        if 'commit' in self.options:
            self.total += n
            if self.total >= self.options[1]:
                self.commit()
                self.total = 0
        return [(n,)] if self.counts else []


def run_model(m, case):
    kind, text, options, counts, placement, inputs, args, rows, faults, downstream, notation = case
    stream = [('#error' if x is ZeroDivisionError else tuple(x) if type(x) in (tuple, list) else (x,)) for x in inputs]
    killed = False

    class Killed(Exception):
        pass

    def send(values):
        for x in values:
            if downstream == 'kill' and x != '#error':
                raise Killed
            if downstream == 'error':
                m.out.append('#error')
            elif downstream == 'head':
                if len([x for x in m.out if x != '#error']) < 2 or x == '#error':
                    m.out.append(x)
            else:
                m.out.append(x)

    try:
        if placement in ('first', 'stream', 'case'):
            m.open()
            if placement == 'first':
                send(m.statement(args))
            else:
                for x in stream:
                    if x == '#error':
                        send(['#error'])
                    else:
                        send(m.statement(args or x))
            m.commit()
        else:
            for x in stream:
                if x == '#error':
                    send(['#error'])
                else:
                    m.open()
                    send(m.statement(x))
                    m.commit()
    except (Failed, Killed):
        killed = True
    return killed


def stop(*args):
    import marcel.exception
    raise marcel.exception.KillCommandException('stop')


@check('transactions', cases, quick=4000, thorough=60000, shards=(4, 6), rule='a statement that changes the contents of the database, or at least two rows selected')
def transactions(case, cx):
    kind, text, options, counts, placement, inputs, args, rows, faults, downstream, notation = case
    if downstream == 'kill' or placement == 'args' or placement == 'case':
        notation = 'cli'
    session = mar.api_session()
    import marcel.api as api
    import marcel.object.db
    marcel.object.db.psycopg2 = fakedb.module
    profile = marcel.object.db.Database('psycopg2', 'name', 'user', 'password', 'host', 1234)
    rows = [tuple(r) for r in rows]
    db = fakedb.reset(rows)
    db.faults = faults
    m = Model(rows, options, counts, kind, text, faults)
    killed = run_model(m, case)
    values = [None if x is ZeroDivisionError else x for x in inputs]

    def value(i):
        if inputs[i] is ZeroDivisionError:
            1 / 0
        return inputs[i]

    if notation == 'cli':
        s = session
        for k, v in dict(V=value, D=profile, T=text, A=args, K=stop).items():
            s.set(k, v)
        flags = '-d D' + (' --autocommit' if 'autocommit' in options else f' -c {options[1]}' if 'commit' in options and kind < 'd' else f' -c ({options[1]})' if 'commit' in options else '') + (' -u' if counts else '')
        sql = f'sql {flags} (T)'
        if args:
            sql += ''.join(f' (A[{i}])' for i in range(len(args)))
        source = f'gen {len(inputs)} | (i: V(i))' if inputs else 'gen 1 | select (x: False)'
        if placement == 'first':
            line = sql
        elif placement == 'stream':
            line = f'{source} | {sql}'
        elif placement == 'case':
            line = f'{source} | case (*x: True) (| {sql} |)'
        else:
            line = f'{source} | args (| x: sql {flags} (T) (x) |)'
        if downstream == 'ok':
            line += ' | (*x: x)'
        elif downstream == 'error':
            line += ' | (*x: 1/0)'
        elif downstream == 'head':
            line += ' | head 2'
        elif downstream == 'kill':
            line += ' | (*x: K())'
        r = s.eval(line)
        out = r.out
        was_killed = r.killed is not None
    else:
        line = 'api'
        kw = {}
        if 'autocommit' in options:
            kw['autocommit'] = True
        if 'commit' in options:
            kw['commit'] = options[1]
        if counts:
            kw['update_counts'] = True
        sql = api.sql(text, *(args or ()), db=profile, **kw)
        p = sql if placement == 'first' else (api.gen(len(inputs)) | api.map(value) | sql) if inputs else (api.gen(1) | api.select(lambda x: False) | sql)
        if downstream == 'ok':
            p = p | api.map(lambda *x: x)
        elif downstream == 'error':
            p = p | api.map(lambda *x: 1 / 0)
        elif downstream == 'head':
            p = p | api.head(2)
        stderr = io.StringIO()
        with contextlib.redirect_stderr(stderr), contextlib.redirect_stdout(io.StringIO()):
            out = [mar.plain(x) for x in api.gather(p, unwrap_singleton=False)]
        was_killed = stderr.getvalue() != ''
    what = f'{line}, {text!r}, args {args}, inputs {short(inputs)}, faults {faults}'
    cx.true(was_killed == killed, f'{what}: expected {"failure" if killed else "success"}, got {out}; {db.log}')
    cx.eq(db.committed, m.committed, f'{what}: contents ({db.log})')
    cx.eq(db.snapshots, m.snapshots, f'{what}: committed states ({db.log})')
    cx.eq(db.open(), 0, f'{what}: connections not closed ({db.log})')
    cx.true(all(c == dict(dbname='name', user='user', password='password', host='host', port=1234) for c in db.connects), f'{what}: connected to {db.connects}')
    if not killed:
        actual = ['#error' if mar.is_error(x) else x for x in out]
        if placement == 'case':
            # Errors pass while the branch keeps its results
            actual, m.out = sorted(actual, key=repr), sorted(m.out, key=repr)
        cx.eq(actual, m.out, f'{what}: output')
    cx.label(kind)
    cx.label(placement + (' killed' if killed else ''))
    cx.nontrivial(len(m.snapshots) > 0 or len([x for x in m.out if x != '#error']) > 1)


# Which database is used

PROFILES = [('n1', 'u1', 'p w', 'h1', 5432), ('n2', 'é', None, None, None), ("it's", 'u3', '', 'h3', 1)]


@st.composite
def profiled(draw):
    names = draw(st.permutations(['D1', 'D2', '_d']))
    defined = [(name, draw(st.integers(0, len(PROFILES) - 1)), draw(st.sampled_from(['startup', 'command', 'command']))) for name in names[:draw(st.integers(0, 3))]]
    default = draw(st.sampled_from([None, 'function', 'variable', 'not a database'])) if defined else draw(st.sampled_from([None, 'not a database']))
    which = draw(st.sampled_from([None, None, 'D1', 'D2', '_d', 'other', 'undefined']))
    return defined, default, which, draw(st.sampled_from(['-d', '--db'])), draw(st.booleans()), draw(st.integers(0, 9)) == 0, draw(st.booleans())


@check('profiles', profiled, quick=200, thorough=3000, shards=(2, 4), rule='the statement is executed, and another database could have been used')
def profiles(case, cx):
    """The database is the one given, or the default."""
    import marcel.object.db
    defined, default, which, flag, update, refuse, again = case
    marcel.object.db.psycopg2 = fakedb.module
    config = ''
    call = lambda i: f"database('psycopg2', {', '.join(repr(x) for x in PROFILES[i])})"
    for name, i, where in defined:
        if where == 'startup':
            config += f'{name} = {call(i)}\n'
    db = fakedb.reset([(1, 'x')])
    if refuse:
        db.faults = {'connect': 0}
    first = [d for d in defined if d[2] == 'startup']
    if default == 'function' and first:
        config += f'set_db_default({first[0][0]})\n'
    s = mar.Session(config=config)
    for name, i, where in defined:
        if where == 'command':
            cx.eq(s.eval(f'{name} = ({call(i)})').killed, None, f'{name} = ({call(i)})')
    profile = None
    if default == 'function' and first:
        profile = first[0][1]
    elif default == 'function':
        name, profile, _ = defined[0]
        s.eval(f'(set_db_default({name}))')
    elif default == 'variable':
        name, profile, _ = defined[-1]
        s.eval(f'DB_DEFAULT = ({name})')
    elif default == 'not a database':
        s.eval('DB_DEFAULT = ("D1")')
    s.eval('other = 5')
    known = {name: i for name, i, _ in defined}
    expected = profile if which is None else known.get(which)
    text = "insert into t values (7, 'seven')" if update else 'select * from t'
    command = 'sql ' + (f'{flag} {which} ' if which else '') + f'"{text}"'
    what = f'{config!r}, {defined}, default {default}: {command}'
    for i in range(1 + again):
        before = len(db.connects)
        out, err = s.command(command)
        if expected is None:
            cx.true(err.count('\n') == 1 and not out and not db.connects, f'{what}: no database, but {out!r} {err!r} {db.connects}')
            continue
        cx.eq(db.connects[before:], [dict(zip(['dbname', 'user', 'password', 'host', 'port'], PROFILES[expected]))], f'{what}: connections')
        if refuse and i == 0:
            cx.true(err.count('\n') == 1 and not out and PROFILES[expected][0] in err, f'{what}: can not connect, but {out!r} {err!r}')
        else:
            cx.true(err == '' and out == ('' if update else "(1, 'x')\n"), f'{what}: {out!r} {err!r}')
    cx.eq(db.open(), 0, f'{what}: connections not closed')
    cx.eq(len(db.committed), 1 + ((1 + again - refuse) if update and expected is not None else 0), f'{what}: rows')
    cx.label(f'{default}, {which is not None}')
    cx.nontrivial(expected is not None and len({i for _, i, _ in defined}) > 1)


@check('drivers', lambda: st.one_of(st.sampled_from(['psycopg2', 'psycopg', 'psy', '', '2', 'PSYCOPG2', 'mysql', 'sqlite3', 'psycopg2 ']), st.text(max_size=8)), quick=40, thorough=400,
       rule='every case')
def drivers(driver, cx):
    """Drivers other than psycopg2 are rejected."""
    s = mar.shared_session()
    s.set('DR', driver)
    r = s.eval('(database(DR, "n", "u").dbname)')
    cx.true((r.out == [('n',)] and r.killed is None) == (driver == 'psycopg2'), f'{driver!r}: {r}')
    cx.nontrivial()
