"""C07: pipeline parameters."""
import hypothesis.strategies as st

from harness import mar
from harness.core import Known, check, same, short

POOL = ['x', 'y', 'z']      # global variables, also used as parameters
LOCAL = ['v', 'w']          # used as parameters only
GLOBALS = {'x': 101, 'y': 'why', 'z': (3, 3), 'G': 7}


# --------------------------------------------------------------------------------------------------------------------
# Programs. def: (name, kind, params, stages). kind: 'src' (has a source) or 'mid' (transforms its input).
# stages:
#   ('gen', n) ('vals', names)                      sources
#   ('map', names) ('fail', name) ('reverse',) ('tail', n) ('head', n)
#   ('call', def name, [arg], {param: arg})         arg: ('lit', value) ('name', n) ('pair', n)
#   ('pass', def name, param, arg)                  call a pipeline passed as a parameter
#   ('args', params, stages)
#   ('union', stages)
#   ('kill',) ('killsetup',)


class Gen(object):
    """Draws stages. Tracks which names are hidden for stages downstream of a call (see the known finding)."""

    def __init__(self, draw, defs):
        self.draw = draw
        self.defs = defs                        # name -> (kind, params, stages)
        self.closure = {}                       # name -> all params that can be bound while its output is delivered

    def arg(self, visible):
        d = self.draw
        k = d(st.integers(0, 3))
        if k == 0 or not visible:
            return 'lit', d(st.one_of(st.integers(0, 20), st.sampled_from(['a', 'b c', None, (1, 2)])))
        return ('name' if k < 3 else 'pair'), d(st.sampled_from(visible))

    def stages(self, kind, visible, depth, kill=False, top=True):
        """visible: names the stages may use. Returns (stages, names hidden downstream)."""
        d = self.draw
        hidden = set()
        out = []
        for i in range(d(st.integers(1, 4))):
            usable = [n for n in visible if n not in hidden]
            if i == 0 and kind == 'src':
                choices = ['gen', 'gen', 'vals', 'callsrc', 'callsrc']
            else:
                choices = ['map', 'map', 'map', 'fail', 'reverse', 'tail', 'head', 'callmid', 'callmid', 'args', 'union']
                if kill:
                    choices += ['kill', 'killsetup']
            c = d(st.sampled_from(choices))
            if c in ('callsrc', 'callmid'):
                # An error in a pipeline run by another operator kills only part of a command: kept out of this check
                candidates = [n for n in sorted(self.defs) if self.defs[n][0] == c[4:] and
                              (top or not has(self.defs[n][2], ('kill', 'killsetup'), self.defs))]
                if not candidates:
                    c = 'gen' if c == 'callsrc' else 'map'
                else:
                    name = d(st.sampled_from(candidates))
                    params = self.defs[name][1]
                    n_pos = d(st.integers(0, len(params)))
                    pos = [self.arg(visible) for _ in range(n_pos)]
                    kw = {}
                    for p in params[n_pos:]:
                        if d(st.booleans()):
                            kw[p] = self.arg(visible)
                    out.append(('call', name, pos, kw))
                    hidden |= self.closure[name]
                    continue
            if c in ('args', 'union') and depth <= 0:
                c = 'map'
            if c == 'gen':
                out.append(('gen', d(st.integers(1, 3))))
            elif c in ('vals', 'map'):
                out.append((c, d(st.lists(st.sampled_from(usable), max_size=3)) if usable else []))
            elif c == 'fail':
                out.append(('fail', d(st.sampled_from(usable))) if usable else ('map', []))
            elif c in ('head', 'tail'):
                out.append((c, d(st.integers(1, 3))))
            elif c == 'args':
                params = d(params_st)
                if params:
                    body, h = self.stages('src', sorted(set(usable) | set(params)), depth - 1, top=False)
                    out.append(('args', params, body))
                    hidden |= set(params) | h
                else:
                    out.append(('map', []))
            elif c == 'union':
                body, h = self.stages('src', usable, depth - 1, top=False)
                out.append(('union', body))
                hidden |= h
            else:
                out.append((c,))
        return out, hidden


params_st = st.lists(st.sampled_from(POOL + POOL + LOCAL), max_size=3, unique=True)


@st.composite
def programs(draw):
    defs = {}
    g = Gen(draw, defs)
    order = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['src', 'mid']))
        params = draw(params_st)
        body, hidden = g.stages(kind, sorted(params + ['G']), 1, kill=draw(st.integers(0, 5)) == 0)
        name = f'f{i}'
        defs[name] = (kind, params, body)
        g.closure[name] = set(params) | hidden
        order.append((name, kind, params, body))
    commands = []
    for _ in range(draw(st.integers(1, 4))):
        body, _ = g.stages('src', sorted(GLOBALS), 1)
        commands.append(body)
    return order, commands


# --------------------------------------------------------------------------------------------------------------------
# Rendering

def r_arg(a):
    kind, value = a
    return f'({value!r})' if kind == 'lit' and not isinstance(value, tuple) else \
        f'(({value!r}))' if kind == 'lit' else \
        f'({value})' if kind == 'name' else f'(({value}, 1))'


def r_stages(stages):
    return ' | '.join([r_stage(s) for s in stages])


def r_pipeline(params, stages):
    return '(|' + (f' {", ".join(params)}: ' if params else ' ') + r_stages(stages) + ' |)'


def r_stage(s):
    k = s[0]
    if k in ('gen', 'head', 'tail'):
        return f'{k} {s[1]}'
    if k == 'vals':
        return f'map (lambda: ({", ".join(["0"] + s[1])},))'
    if k == 'map':
        return f'map (*t: ({", ".join(["*t"] + s[1])},))'
    if k == 'fail':
        return f'map (*t: (*t, 1 // (len(repr({s[1]})) % 2)))'
    if k == 'reverse':
        return 'reverse'
    if k == 'call':
        return ' '.join([s[1]] + [f'{"--" if len(p) > 9 else "-"}{p} {r_arg(a)}' for p, a in s[3].items()] +
                        [r_arg(a) for a in s[2]])
    if k == 'args':
        return 'args ' + r_pipeline(s[1], s[2])
    if k == 'union':
        return 'union ' + r_pipeline([], s[1])
    if k == 'kill':
        return 'map (*t: ([],)) | difference (| gen 1 |)'
    if k == 'killsetup':
        return 'head (1 // 0)'
    assert False, s


# --------------------------------------------------------------------------------------------------------------------
# Model

class Kill(Exception):
    pass


ERR = ('#err',)


def check_setup(stages, defs):
    for s in stages:
        if s[0] == 'killsetup':
            raise Kill()
        if s[0] == 'call':
            check_setup(defs[s[1]][2], defs)


def value(a, env):
    return a[1] if a[0] == 'lit' else env[a[1]] if a[0] == 'name' else (env[a[1]], 1)


def ok(rows):
    return [r for r in rows if r is not ERR]


def run(stages, rows, env, defs):
    """Failures of the setup of the stages must have been dealt with."""
    if stages and stages[0][0] not in ('gen', 'vals', 'call') and rows is None:
        rows = []
    for s in stages:
        k = s[0]
        if k == 'gen':
            rows = [(i,) for i in range(s[1])]
        elif k == 'vals':
            rows = [tuple([0] + [env[n] for n in s[1]])]
        elif k == 'map':
            rows = [r if r is ERR else r + tuple([env[n] for n in s[1]]) for r in rows]
        elif k == 'fail':
            good = len(repr(env[s[1]])) % 2
            rows = [r if r is ERR else r + (1,) if good else ERR for r in rows]
        elif k == 'reverse':
            rows = [r for r in rows if r is ERR] + ok(rows)[::-1]
        elif k == 'tail':
            rows = [r for r in rows if r is ERR] + ok(rows)[-s[1]:]
        elif k == 'head':
            n = 0
            out = []
            for r in rows:
                if r is ERR:
                    out.append(r)
                elif n < s[1]:
                    n += 1
                    out.append(r)
            rows = out
        elif k == 'call':
            _, params, body = defs[s[1]]
            bound = {p: None for p in params}
            bound.update(zip(params, [value(a, env) for a in s[2]]))
            bound.update({p: value(a, env) for p, a in s[3].items()})
            rows = run(body, rows, {'G': GLOBALS['G'], **bound}, defs)
        elif k == 'args':
            out = [r for r in rows if r is ERR]
            values = [r[0] if len(r) == 1 else r for r in ok(rows)]
            n = len(s[1])
            for i in range(0, len(values), n):
                batch = values[i:i + n]
                batch += [None] * (n - len(batch))
                check_setup(s[2], defs)
                out += run(s[2], None, {**env, **dict(zip(s[1], batch))}, defs)
            rows = out
        elif k == 'union':
            check_setup(s[1], defs)
            rows = rows + run(s[1], None, env, defs)
        elif k == 'kill':
            if ok(rows):
                raise Kill()
    return rows


def norm(rows):
    return sorted([repr(r) for r in rows])


def has(stages, kinds, defs):
    for s in stages:
        if s[0] in kinds:
            return True
        if s[0] == 'call' and has(defs[s[1]][2], kinds, defs):
            return True
        if s[0] in ('args', 'union') and has(s[-1], kinds, defs):
            return True
    return False


def open_order(stages, defs):
    # Errors overtake buffered tuples. After that, the selection of tuples stays the same.
    return True


def check_globals(session, cx, text):
    for name, expected in GLOBALS.items():
        r = session.eval(f'map (lambda: ({name},))')
        cx.true(r.out == [(expected,)], f'after {text}: {name} is {r}, was {expected!r}')
        cx.eq(session.get(name), expected, f'{name} after {text}')
    for name in LOCAL:
        r = session.eval(f'({name})')
        cx.true(not r.values and r.killed and 'not defined' in r.killed, f'after {text}: {name} is defined: {r}')
        cx.true(not session.env.hasvar(name), f'after {text}: {name} is defined')


@check('programs', programs, quick=2500, thorough=60000, shards=(5, 8),
       rule='some command calls a pipeline one of whose parameters has the name of a global variable')
def programs_check(program, cx):
    """The output of every command is what binding parameters per execution gives; globals do not change."""
    order, commands = program
    session = mar.shared_session()
    for name, v in GLOBALS.items():
        session.set(name, v)
    defs = {}
    for name, kind, params, body in order:
        text = f'{name} = {r_pipeline(params, body)}'
        r = session.eval(text)
        cx.true(r.killed is None, f'{text}: {r}')
        defs[name] = (kind, params, body)
    check_globals(session, cx, 'definitions')
    for body in commands:
        text = r_stages(body)
        try:
            check_setup(body, defs)
            expected = run(body, None, GLOBALS, defs)
        except Kill:
            expected = None
        context = '; '.join([f'{n} = {r_pipeline(p, b)}' for n, _, p, b in order] + [text])
        r = session.eval(text)
        if expected is None:
            cx.label('killed')
            cx.true(r.killed is not None, f'{context}: should have failed, got {r}')
        else:
            cx.true(r.killed is None, f'{context}: {r.killed}, expected {short(expected)}')
            actual = [ERR if mar.is_error(x) else x for x in r.out]
            if norm(actual) != norm(expected):
                cx.fail(f'{context}: expected (in any order) {short(expected)}, got {short(r.out)}')
            if not has(body, ('union', 'args', 'reverse', 'tail', 'fail'), defs) and not same(actual, expected):
                cx.fail(f'{context}: expected {short(expected)}, got {short(r.out)}')
            if ERR in expected:
                cx.label('with errors')
        check_globals(session, cx, context)
    called = {s[1] for body in commands for s in body if s[0] == 'call'}
    cx.nontrivial(any(set(defs[c][1]) & set(POOL) for c in called))
    if any(has(defs[c][2], ('call',), defs) for c in called):
        cx.label('nested calls')
    if any(s[0] == 'call' and s[3] for b in commands for s in b):
        cx.label('keyword arguments')


# --------------------------------------------------------------------------------------------------------------------

@st.composite
def passing(draw):
    """A pipeline passed to a pipeline, possibly under the name of one of its own parameters"""
    inner_params = draw(st.lists(st.sampled_from(['x', 'y', 'p']), min_size=1, max_size=2, unique=True))
    inner_n = draw(st.integers(1, 3))
    outer = draw(st.sampled_from(['p', 'q', 'x']))
    other = draw(st.sampled_from([n for n in ['x', 'y', 'z', 'p'] if n != outer]))
    how = draw(st.sampled_from(['var', 'literal', 'args', 'args-literal']))
    return inner_params, inner_n, outer, other, how, draw(st.integers(0, 9)), draw(st.integers(0, 9))


@check('passing', passing, quick=400, thorough=4000, rule='the passed pipeline has a parameter with the name of a parameter of the receiver')
def passing_check(case, cx):
    """Pipelines are values: they can be passed as arguments."""
    inner_params, n, outer, other, how, a, b = case
    session = mar.shared_session()
    for name, v in GLOBALS.items():
        session.set(name, v)
    inner = f'(| {", ".join(inner_params)}: gen {n} | map (i: (i, {", ".join(inner_params)})) |)'
    session.eval(f'inner = {inner}')
    session.eval(f'receiver = (| {outer}, {other}: {outer} ({other}) |)')
    rest = (None,) * (len(inner_params) - 1)
    arg = '(inner)' if how in ('var', 'args') else inner
    if how in ('var', 'literal'):
        text = f'receiver {arg} ({a})'
        expected = [(i, a) + rest for i in range(n)]
    else:
        text = f'map (lambda: {a}) | args (| u: receiver {arg} (u) |)'
        expected = [(i, a) + rest for i in range(n)]
    r = session.eval(text)
    cx.true(r.killed is None and same(r.out, expected), f'{text} with inner = {inner}, receiver = (| {outer}, {other}: '
                                                        f'{outer} ({other}) |): expected {expected}, got {r}')
    check_globals(session, cx, text)
    cx.label(how)
    cx.nontrivial(bool({outer, other} & set(inner_params)))


DOWNSTREAM = 'an operator downstream of a call to a parameterised pipeline sees the parameters of that pipeline'


@check('downstream', lambda: st.tuples(st.integers(0, 9), st.integers(0, 9), st.sampled_from(['gen 2', 'gen 3 | reverse']),
                                       st.sampled_from(['map (i: (i, x))', 'reverse | map (i: (i, x))',
                                                        'select (i: i < x) | map (i: (i, x))',
                                                        'args (| a: gen 1 | map (i: (a, x)) |)'])),
       quick=60, thorough=300, rule='the parameter differs from the global variable')
def downstream_check(case, cx):
    """The parameter is bound during the execution of the pipeline only, not for what follows it in a command."""
    g, p, source, stage = case
    session = mar.shared_session()
    session.set('x', g)
    session.eval(f'f = (| x: {source} |)')
    cx.nontrivial(g != p)

    def expected(x):
        rows = list(range(int(source[4])))
        if ('reverse' in source) != ('reverse' in stage):
            rows.reverse()
        if 'select' in stage:
            rows = [i for i in rows if i < x]
        return [(i, x) for i in rows]
    text = f'f ({p}) | {stage}'
    r = session.eval(text)
    if r.killed is None and same(r.out, expected(g)):
        session.set('x', GLOBALS['x'])
        return
    session.set('x', GLOBALS['x'])
    if r.killed is None and same(r.out, expected(p)):
        raise Known(DOWNSTREAM)
    cx.fail(f'{text} with x = {g}, f = (| x: {source} |): expected {expected(g)}, got {r}')


@st.composite
def bad_calls(draw):
    n = draw(st.integers(0, 3))
    params = ['x', 'v', 'y'][:n]
    kind = draw(st.sampled_from(['surplus', 'unknown', 'twice', 'position and name', 'flag after', 'not pipeline',
                                 'none']))
    return params, kind, draw(st.booleans())


@check('invalid', bad_calls, quick=150, thorough=500, rule='every case')
def invalid_check(case, cx):
    """Wrong calls are rejected, without disturbing anything."""
    params, kind, piped = case
    session = mar.shared_session()
    for name, v in GLOBALS.items():
        session.set(name, v)
    session.eval(f'f = {r_pipeline(params, [("map", params)])}')
    if kind == 'surplus':
        text = 'f ' + ' '.join([f'({i})' for i in range(len(params) + 1)])
    elif kind == 'unknown':
        text = 'f -nope (1)'
    elif kind == 'twice':
        text = 'f -x (1) -x (2)'
    elif kind == 'position and name':
        text = 'f -x (1) (2)'
    elif kind == 'flag after':
        text = 'f (1) -v (2)'
    elif kind == 'not pipeline':
        text = 'y (1)'
    else:
        text = 'nosuchvariable (1)'
    if piped:
        text = 'gen 2 | ' + text
    r = session.eval(text)
    cx.nontrivial()
    cx.label(kind)
    cx.true(r.killed is not None and not r.values, f'{text} with f = {r_pipeline(params, [("map", params)])}: '
                                                   f'must be rejected, got {r}')
    check_globals(session, cx, text)
