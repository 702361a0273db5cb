"""C10: arguments reach operators verbatim under every quoting and spacing style."""
import os
import shutil

import hypothesis.strategies as st

from harness import mar
from harness.core import check

SPECIAL = list('\'"\\ ()|<>$#,:=!@{}[]*?~&;`%-+\n\t') + ["''", '""', '\\\\', '\\n', '|)', '(|', '>>', "'''", '\u00e9', '\u4e2d',
                                                         '\U0001f600', '\xa0', 'e\u0301']
characters = st.one_of(st.sampled_from('abcxyz0159'), st.sampled_from(SPECIAL), st.sampled_from(SPECIAL),
                       st.characters(codec='utf-8', exclude_characters='\x00'))
strings = st.lists(characters, max_size=10).map(''.join)


def bare(draw, value):
    """Escape what needs it, and some other characters."""
    out = []
    for c in value:
        if c.isspace() or c in '\'"\\()|<>$#,:=!@-~' or draw(st.integers(0, 5)) == 0:
            out.append('\\')
        out.append(c)
    return ''.join(out)


@st.composite
def quoted(draw, value):
    """A way to write the string value, which is not empty."""
    style = draw(st.sampled_from(['bare', 'single', 'double']))
    if style == 'single' and "'" not in value:
        return "'" + value + "'"
    if style == 'double' and '"' not in value:
        return '"' + value.replace('\\', '\\\\') + '"'
    if value == '':
        return "''" if style == 'single' else '""'
    return bare(draw, value)


@st.composite
def arguments(draw):
    sink = draw(st.sampled_from(['assign', 'assign', 'positional', 'positional', 'keyword', 'nested', 'write', 'read',
                                 'redirect', 'append', 'from', 'ls', 'cd', 'pushd', 'env', 'adjacent', 'fork', 'case']))
    value = draw(strings)
    if sink in ('write', 'read', 'redirect', 'append', 'from', 'ls', 'cd', 'pushd'):
        # File names. Patterns, and names beginning with ~, stand for other files.
        value = ''.join(c for c in value if c not in '/*?[') + draw(st.sampled_from(['', '', 'q']))
        if value in ('', '.', '..', '-') or value[0] == '~' or len(value.encode('utf-8')) > 200:
            value = 'x ' + value
        if sink == 'from':
            value = 'q' + value
    return sink, value, draw(quoted(value)), draw(quoted(draw(strings)))


_ready = []


def session():
    s = mar.shared_session()
    if not _ready:
        _ready.append(True)
        for line in ['f = (| p: gen 1 | map (i: p) |)', 'g = (| p, q: gen 1 | map (i: (p, q)) |)',
                     'h = (| p: f (p) |)', 'k = (| p: gen 1 | args (| i: f (p) |) |)']:
            s.command(line)
    return s


def scratch(cx):
    base = cx.scratch + '/work'
    os.chdir(base)
    for e in os.listdir(base):
        p = os.path.join(base, e)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return base


@check('string', arguments, quick=5000, thorough=150000, shards=(3, 8),
       rule='the string contains a character that is special to marcel, or is not ASCII')
def string(case, cx):
    """However it is written, the string that reaches the operator is the string that was meant."""
    sink, value, text, other = case
    s = session()
    base = scratch(cx)

    def run(command, expected):
        r = s.eval(command)
        cx.eq(r.out if r.killed is None else r.killed, expected, f'{command!r} with the string {value!r}')

    if sink == 'assign':
        run(f'x = {text}', [])
        cx.eq(str(s.get('x')), value, f'x after {text!r}')
        run('gen 1 | map (i: x)', [(value,)])
    elif sink == 'positional':
        run(f'f {text}', [(value,)])
    elif sink == 'keyword':
        run(f'g --p {text} -q {text}', [(value, value)])
    elif sink == 'nested':
        run(f'h {text} | args (| z: k {text} | map (y: y == z) |)', [(True,)])
    elif sink == 'fork':
        run(f'gen 1 | args (| z: f {text} |)', [(value,)])
    elif sink == 'case':
        run(f'gen 1 | case (x: True) (| args (| i: f {text} |) |)', [(value,)])
    elif sink == 'write':
        run(f'gen 2 | write {text}', [(0,), (1,)])
        cx.eq(os.listdir('.'), [value], f'files after write {text!r}')
    elif sink in ('redirect', 'append'):
        arrow = '>' if sink == 'redirect' else '>>'
        run(f'gen 2 {arrow} {text}', [(0,), (1,)])
        cx.eq(os.listdir('.'), [value], f'files after {arrow} {text!r}')
    elif sink in ('read', 'from'):
        with open(value, 'w') as f:
            f.write('line\n')
        run(f'read {text}' if sink == 'read' else f'{text} < map (x: x)', [('line',)])
    elif sink == 'ls':
        open(value, 'w').close()
        open('decoy', 'w').close()
        run(f'ls {text} | map (f: f.name)', [(value,)])
    elif sink in ('cd', 'pushd'):
        os.mkdir(value)
        r = s.eval(f'{sink} {text}')
        cwd = os.getcwd()
        s.eval(f'cd {base}')
        s.eval('dirs -c')
        cx.eq((r.killed, cwd), (None, os.path.join(base, value)), f'{sink} {text!r}: current directory')
    elif sink == 'env':
        run(f'y = {text}', [])
        r = s.eval(f'env y')
        cx.eq([tuple(str(x) for x in row) for row in r.out], [('y', value)], f'env y after y = {text}')
    elif sink == 'adjacent':
        if value == '' or text.startswith('('):
            return
        run(f"x = {text}(1 + 2){text}('a' * 2)", [])
        cx.eq(s.get('x'), f'{value}3{value}aa', f"x = {text}(1 + 2){text}('a' * 2)")
    cx.label(sink)
    cx.nontrivial(any(not c.isascii() or not c.isalnum() for c in value))


# ----------------------------------------------------------------------------------------------------------------------
# Python expressions

literals = st.recursive(
    st.one_of(st.integers(-10 ** 6, 10 ** 20), st.floats(allow_nan=False, allow_infinity=False), st.booleans(), st.none(), strings, strings,
              st.binary(max_size=5)),
    lambda x: st.one_of(st.lists(x, max_size=3), st.tuples(x, x), st.tuples(x), st.dictionaries(strings, x, max_size=2),
                        st.sets(st.integers(0, 9), min_size=1, max_size=3)),
    max_leaves=6)


@st.composite
def string_source(draw, value):
    """Python source for the string."""
    how = draw(st.integers(0, 5))
    if how == 0 and "'''" not in value and not value.endswith("'") and '\\' not in value and '\r' not in value:
        return "'''" + value + "'''"
    if how == 1 and '"""' not in value and not value.endswith('"') and '\\' not in value and '\r' not in value:
        return '"""' + value + '"""'
    if how == 2 and '"' not in value and '\\' not in value and value.isprintable():
        return 'r"' + value + '"'
    if how == 3 and value.isprintable() and "'" not in value and '\\' not in value:
        return "'" + value + "'"
    if how == 4:
        return '"' + ''.join('\\"' if c == '"' else repr('"' + c)[2:-1] if c != "'" else c for c in value) + '"'
    return repr(value)


@st.composite
def expressions(draw, depth=2):
    """(source, has it to be parenthesised)"""
    kind = draw(st.sampled_from(['literal', 'string', 'string'] + ['list', 'call', 'lambda', 'op', 'index', 'paren', 'comp',
                                                                  'cond', 'fstring', 'slice', 'kw'] * (depth > 0)))
    sub = expressions(depth - 1) if depth > 0 else None
    space = draw(st.sampled_from(['', '', ' ', '  ']))
    if kind == 'literal':
        return repr(draw(literals))
    if kind == 'string':
        return draw(string_source(draw(strings)))
    if kind == 'list':
        return f'[{space}{draw(sub)}, {draw(sub)}{space}]'
    if kind == 'call':
        return f'repr{space}({space}{draw(sub)})'
    if kind == 'lambda':
        return f'(lambda a, b={draw(sub)}: (a, b))({draw(sub)})'
    if kind == 'op':
        return f'({draw(sub)}) == ({draw(sub)})'
    if kind == 'index':
        return f'[{draw(sub)}, {draw(sub)}][{draw(st.integers(-2, 1))}]'
    if kind == 'slice':
        return f'(({draw(sub)}),)[0:1]'
    if kind == 'paren':
        return f'({space}{draw(sub)}{space})'
    if kind == 'comp':
        return f'[(i, {draw(sub)}) for i in range(2) if i{space}<{space}2]'
    if kind == 'cond':
        return f'({draw(sub)} if {draw(sub)} else {draw(sub)})'
    if kind == 'kw':
        return f'dict(a={draw(sub)}, **{{"b": {draw(sub)}}})'
    return f'f"{{ {draw(st.integers(0, 9))} }}|({draw(st.sampled_from(["", ")", "((", "{{", chr(39)]))}"'


@st.composite
def expression_uses(draw):
    return draw(expressions(2)), draw(st.sampled_from(['assign', 'map', 'lambda', 'pipelinearg', 'top', 'select', 'adjacent', 'args'])), \
        draw(st.sampled_from(['', ' ', '\n ', '\t']))


@check('expression', expression_uses, quick=5000, thorough=120000, shards=(3, 8),
       rule='the expression contains brackets, quotes, or characters special to marcel')
def expression(case, cx):
    """A parenthesised Python expression, alone or as the body of a function, has the value that Python gives it."""
    source, use, space = case
    s = session()
    want = eval(source, {})
    if want is None and use in ('assign', 'top'):
        return
    wrap = (lambda x: x if type(x) in (tuple, list) else (x,))

    def run(command, expected):
        r = s.eval(command)
        cx.eq(r.out if r.killed is None else r.killed, expected, f'{command!r}')

    if use == 'assign':
        if callable(want):
            return
        r = s.eval(f'x = ({space}{source}{space})')
        cx.eq(r.killed, None, f'x = ({source}): error')
        cx.eq(s.get('x'), want, f'value of x after x = ({source})')
    elif use == 'map':
        run(f'gen 1 | map ({space}i: ({source}){space})', [wrap(want)])
    elif use == 'lambda':
        run(f'gen 1 | map (lambda i:{space}({source}))|map(lambda *i: i)'.replace('map(', 'map ('),
            [tuple(wrap(want))])
    elif use == 'top':
        run(f'({space}({source}))', [wrap(want)])
    elif use == 'pipelinearg':
        run(f'f ({space}({source}){space}) | map (*x: True)', [(True,)])
        if want is not None:
            run(f'f (({source}))', [wrap(want)])
    elif use == 'select':
        run(f'gen 1 | select (i: ({source}))', [(0,)] if want else [])
    elif use == 'args':
        run(f'gen 1 | args (| i: gen 1 | map (j: [({source})]) |)', [[want]])
    elif use == 'adjacent':
        if "'''" in source or 'lambda' in source or '"' in source:
            return
        r = s.eval(f'x = "p q"(({source}))s')
        cx.eq(r.killed, None, f'x = "p q"(({source}))s: error')
        cx.eq(s.get('x'), f'p q{want}s', f'x = "p q"(({source}))s')
    cx.label(use)
    cx.nontrivial(any(c in source for c in '()[]{}\'"|#<>'))


# ----------------------------------------------------------------------------------------------------------------------
# Spacing and comments

# S: whitespace is needed, O: whitespace is optional.
S, O = 'S', 'O'
COMMANDS = [
    ['gen', S, '5', O, '|', O, 'map', S, '(x: (x, -x))', O, '|', O, 'tail', S, '2'],
    ['gen', S, '4', O, '|', O, '(x: x * 2)', O, '|', O, 'select', S, '(x: x > 2)'],
    ['gen', S, '3', O, '|', O, 'args', S, '(|', O, 'n', O, ':', O, 'gen', S, '2', O, '|', O, 'map', S, '(i: (i, n))', O, '|)'],
    ['x', O, '=', O, '5'],
    ['x', O, '=', O, "'a # b'"],
    ['x', O, '=', O, '(5 + 6)'],
    ['x', O, '=', O, '(|', O, 'a', O, ',', O, 'b', O, ':', O, 'gen', S, '(int(a))', O, '|', O, 'map', S, '(i: b)', O, '|)'],
    ['g', S, '--p', S, '1', S, '--q', S, "'2 | 3'"],
    ['gen', S, '3', O, '>$', O, 'r', ],
    ['gen', S, '3', O, '>>$', O, 'r'],
    ['r0', O, '<$', O, 'map', S, '(x: x + 1)', O, '>$', O, 'r'],
    ['gen', S, '3', O, '>', O, 'out'],
    ['gen', S, '6', O, '|', O, 'case', S, '(x: x % 2)', S, '(|', O, 'map', S, '(x: -x)', O, '|)', S, '(|', O, 'head', S, '1', O, '|)'],
    ['gen', S, '5', S, '--', 'pad', S, '3'],
    ['gen', S, '-p', S, '3', S, '5', O, '|', O, 'window', S, '-o', S, '2'],
    ['gen', S, '4', O, '|', O, 'join', S, '--keep', S, '(|', O, 'gen', S, '2', O, '|', O, 'map', S, '(x: (x, x))', O, '|)'],
    ['gen', S, '5', O, '|', O, 'red', S, 'count', O, '|', O, 'map', S, "(x: f'({x}#)')"],
    ['gen', S, '2', O, '|', O, 'filter', S, '-k', S, '(|', O, 'gen', S, '1', O, '|)', O, '|', O, 'sort', S, '(x: -x)'],
    ["'gen'", S, '3'],
]
ws = st.text(' \t', min_size=1, max_size=3) | st.sampled_from([' ', '\n', ' \n ', '\r\n', '\x0b', '\u2003'])


@st.composite
def spacings(draw):
    i = draw(st.integers(0, len(COMMANDS) - 1))
    text = draw(st.one_of(st.just(''), ws))
    for token in COMMANDS[i]:
        text += draw(ws) if token is S else draw(st.one_of(st.just(''), ws)) if token is O else token
    text += draw(st.one_of(st.just(''), ws))
    if draw(st.booleans()):
        text += '#' + draw(strings).replace('\n', '')
    return i, text


@check('spacing', spacings, quick=2500, thorough=60000, shards=(2, 6), rule='the spacing differs from one space everywhere, or there is a comment')
def spacing(case, cx):
    i, text = case
    s = session()
    scratch(cx)
    plain = ''.join(' ' if t in (S, O) else t for t in COMMANDS[i])

    def outcome(command):
        for v in ('x', 'r'):
            s.env.vars().pop(v, None)
        s.eval('gen 2 >$ r0')
        s.eval('gen 1 >$ r')
        for e in os.listdir('.'):
            os.unlink(e)
        s.set('x', None)
        r = s.eval(command)
        x = s.get('x')
        if type(x).__name__ == 'PipelineMarcel':
            x = s.eval("x 2 'q r'").out
        return r.killed is None, r.out, x, s.eval('r <$').out, {f: open(f).read() for f in os.listdir('.')}

    expected = outcome(plain)
    cx.eq(outcome(text), expected, f'{text!r} instead of {plain!r}')
    cx.nontrivial(text != plain)
