"""C34: formatting of help, and colouring, don't lose or alter text."""
import contextlib
import io
import os
import re

import hypothesis.strategies as st

from harness import mar
from harness.core import check, short

CODES = re.compile('\033\\[[0-9;]*m')

PIECES = st.one_of(st.sampled_from(['a', 'of', 'the', 'marcel', '(|', '|)', '-', '--flag', 'x-y', '{', '}', '\\', '{}', '\\{', 'p', 'L', '{p}', '{L}', 'a\\', '\\n', '{r:x}', ':', '=', ',', 'é', '中文', 'x' * 40, 'word.', 'T', '[-a]', "'", '%', '\u200b']),
                   st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=8))
WORDS = st.lists(PIECES, min_size=1, max_size=2).map(''.join)


@st.composite
def lines(draw):
    out = draw(st.sampled_from(['', '', '', ' ', '   ']))
    for i, word in enumerate(draw(st.lists(WORDS, min_size=1, max_size=12))):
        out += (draw(st.sampled_from([' '] * 6 + ['  ', '     '])) if i else '') + word
    return out + draw(st.sampled_from(['', '', '', ' ']))


FORMATS = st.one_of(st.sampled_from(['r', 'b', 'i', 'n', 'R', 'B', 'I', 'N']), st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.sampled_from(['', 'b', 'i', 'bi', 'ib', 'B'])).map(lambda x: 'c%d%d%d%s' % x))


@st.composite
def blocks(draw, first):
    """(blank lines before, paragraph markup or None, text on the line of the markup?, text, regions)"""
    explicit = draw(st.booleans())
    blank = draw(st.integers(0 if explicit or first else 1, 3 if draw(st.booleans()) else 1))
    markup = None
    if explicit:
        code = draw(st.sampled_from('pPlL'))
        indent = draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 30)), st.tuples(st.integers(0, 12), st.integers(0, 30))))
        wrap = draw(st.sampled_from([None, None, 'wrap', 'wrap=T', 'wrap=F', 'wrap=F', 'wrap=t', 'wrap=f', 'WRAP=F']))
        markup = code, indent, wrap, draw(st.booleans())
    text = '\n'.join(draw(st.lists(lines(), min_size=1, max_size=5)))
    same_line = explicit and draw(st.booleans())
    if same_line:
        text = text.lstrip()
    points = sorted(draw(st.sets(st.integers(0, len(text)), max_size=8)))
    regions = []
    while len(points) > 1:
        i, j = points[:2]
        points = points[2:] if draw(st.booleans()) else points[1:]
        # Paragraph markup mustn't be inside text markup, and lines have to remain lines
        if text[i:j].strip():
            regions.append((i, j, draw(FORMATS)))
    return blank, markup, same_line, text, regions


@st.composite
def documents(draw):
    n = draw(st.integers(1, 6))
    return [draw(blocks(i == 0)) for i in range(n)], draw(st.integers(0, 2)), draw(st.one_of(st.integers(20, 200), st.integers(2, 20), st.none()))


def escape(c):
    return '\\' + c if c in '{}\\' else c


def render(document):
    blocks, trailing, _ = document
    out = ''
    for i, (blank, markup, same_line, text, regions) in enumerate(blocks):
        out += '\n' * blank
        if markup:
            code, indent, wrap, swap = markup
            options = []
            if indent is not None:
                options.append('indent=' + ':'.join(str(x) for x in indent))
            if wrap is not None:
                options.append(wrap)
            if swap:
                options.reverse()
            out += '{' + ','.join([code] + options) + '}' + ('' if same_line else '\n')
        opens = {i: f for i, j, f in regions}
        closes = {j for i, j, f in regions}
        for p in range(len(text) + 1):
            if p in closes:
                out += '}'
            if p in opens:
                out += '{' + opens[p] + ':'
            if p < len(text):
                out += escape(text[p])
        out += '\n'
    return out + '\n' * trailing


OPEN, CLOSE = '\x01', '\x02'


class Scheme(object):
    """Colours that can be recognised"""
    help_reference, help_bold, help_italic, help_name = 'r', 'b', 'i', 'n'

    def bold(self):
        return 1

    def italic(self):
        return 2

    def color(self, r, g, b, style):
        return f'c{r}{g}{b}{style}'


def canonical(format):
    if format[0] in 'cC':
        style = format[4:].lower()
        return f'c{format[1:4]}{("b" in style) + 2 * ("i" in style)}'
    return format.lower()


def tags(text):
    """The characters that aren't whitespace, with their formats, and the text without formats"""
    out, plain, format, i = [], '', None, 0
    while i < len(text):
        c = text[i]
        if c == OPEN:
            assert format is None
            end = text.index(OPEN, i + 1)
            format = text[i + 1:end]
            i = end
        elif c == CLOSE:
            format = None
        else:
            plain += c
            if not c.isspace():
                out.append((c, format))
        i += 1
    return out, plain


def formatted(text, columns, scheme, function):
    import marcel.helpformatter
    import marcel.util
    saved = marcel.util.console_width
    marcel.util.console_width = lambda: columns
    try:
        return marcel.helpformatter.HelpFormatter(scheme, function).format(text)
    finally:
        marcel.util.console_width = saved


@check('documents', documents, quick=1400, thorough=80000, shards=(4, 6), rule='at least two paragraphs, one of which is wrapped onto several lines, and text markup')
def formatting(document, cx):
    blocks, trailing, columns = document
    source = render(document)
    result = formatted(source, columns, Scheme(), lambda text, color: f'{OPEN}{color}{OPEN}{text}{CLOSE}')
    what = f'{source!r} at {columns} columns'
    found, plain = tags(result)
    expected = []
    for blank, markup, same_line, text, regions in blocks:
        for p, c in enumerate(text):
            if not c.isspace():
                expected.append((c, next((canonical(f) for i, j, f in regions if i <= p < j), None)))
    cx.true([c for c, _ in found] == [c for c, _ in expected], f'{what}: text altered: {plain!r}')
    cx.true(found == expected, f'{what}: markup of {[x for x, y in zip(found, expected) if x != y][:3]} instead of {[y for x, y in zip(found, expected) if x != y][:3]} in {result!r}')
    out = plain.split('\n')
    available = 0.9 * (columns or 70)
    wrapped = False

    def line():
        cx.true(len(out) > 0, f'{what}: lines missing in {plain!r}')
        return out.pop(0)

    for blank, markup, same_line, text, regions in blocks:
        if blank:
            cx.true(line() == '', f'{what}: paragraphs not separated by one empty line: {plain!r}')
        code, indent, wrap, _ = markup or ('p', None, None, None)
        indents = (4, 6) if code in 'lL' and indent is None else (0, 0) if indent is None else (indent[0], indent[-1])
        lines = text.split('\n')
        if wrap is None or wrap.lower() in ('wrap', 'wrap=t'):
            words = text.split()
            joined = ' '.join(x.strip() for x in lines)
            first = True
            before = None
            while words:
                this = line()
                margin = indents[0] if first else indents[1]
                cx.true(this.startswith(' ' * margin) and not this[margin:].startswith(' ') and this.strip() != '', f'{what}: expected an indentation of {margin}: {this!r}')
                here = this.split()
                cx.true(here == words[:len(here)], f'{what}: words broken or not in order: {this!r}, expected {words}')
                cx.true(this.strip() in joined, f'{what}: {this!r} is not part of the paragraph')
                cx.true(len(this) <= (columns or 70) or len(here) == 1, f'{what}: line too long: {this!r}')
                if before is not None:
                    # Spaces between words are kept
                    gap = max(len(x) for x in re.findall(' +', joined))
                    cx.true(len(before) + gap + len(here[0]) > available - 1, f'{what}: {here[0]!r} would have fitted on line {before!r}')
                before = this
                words = words[len(here):]
                wrapped |= not first
                first = False
        else:
            for i, x in enumerate(lines):
                this = line()
                cx.true(this == ' ' * (indents[0] if i == 0 else indents[1]) + x, f'{what}: expected unwrapped {x!r} to be indented by {indents}, got {this!r}')
    if trailing:
        cx.true(line() == '', f'{what}: an empty line expected at the end of {plain!r}')
    cx.true(out == [], f'{what}: additional lines {out}')
    # Without colours
    import marcel.object.color
    import marcel.util
    cx.true(CODES.sub('', formatted(source, columns, marcel.object.color.ColorScheme(), marcel.util.colorize)) == plain, f'{what}: differs without colours')
    cx.nontrivial(len(blocks) > 1 and wrapped and any(b[4] for b in blocks))


COLORS = st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.integers(0, 3))


@st.composite
def schemes(draw):
    from_keys = draw(st.lists(st.tuples(st.integers(0, 40), COLORS), max_size=25))
    return from_keys, draw(st.dictionaries(st.sampled_from(['.jpg', '.txt', '.py', '', 'x']), COLORS, max_size=3))


def make_scheme(spec):
    import marcel.object.color
    Color, ColorScheme = marcel.object.color.Color, marcel.object.color.ColorScheme
    scheme = ColorScheme()
    for i, c in spec[0]:
        key = ColorScheme.KEYS[i % len(ColorScheme.KEYS)]
        if key != 'file_extension':
            setattr(scheme, key, Color(*c))
    if spec[1]:
        scheme.file_extension = {k: Color(*c) for k, c in spec[1].items()}
    return scheme


def apply(session, scheme):
    """Change the color scheme of the session, as startup scripts do"""
    for key in scheme.KEYS:
        setattr(session.get('COLOR_SCHEME'), key, getattr(scheme, key))


@st.composite
def topics(draw):
    return draw(st.integers(0, 10000)), draw(st.one_of(st.integers(20, 200), st.none())), draw(schemes())


def documented():
    import marcel.op
    import marcel.doc
    ops = set(marcel.op.public)
    docs = {f[5:-3] for f in os.listdir(os.path.dirname(marcel.doc.__file__)) if f.startswith('help_') and f.endswith('.py')}
    return sorted(ops | docs)


def strip_markup(text):
    """Words of a help text, without markup"""
    text = re.sub(r'\\(.)', lambda m: chr(0xe000 + ord(m.group(1))), text, flags=re.DOTALL)
    text = re.sub(r'\{[pPlL][^}]*\}', '', text)
    text = re.sub(r'\{(?:[rbinRBIN]|[cC]\d\d\d[bi]*):([^}]*)\}', r'\1', text)
    return ''.join(chr(ord(c) - 0xe000) if 0xe000 <= ord(c) < 0xf000 else c for c in text).split()


@check('topics', topics, quick=400, thorough=6000, shards=(2, 4), rule='a topic, with a color scheme of at least one of the colors of help')
def existing(case, cx):
    """The operator help, for all operators and topics"""
    n, columns, spec = case
    session = mar.shared_session()
    import importlib
    import marcel.util
    all = documented()
    topic = all[n % len(all)]
    scheme = make_scheme(spec)
    apply(session, scheme)
    saved = marcel.util.console_width
    marcel.util.console_width = lambda: columns
    try:
        r = session.eval(f'help {topic}')
    finally:
        marcel.util.console_width = saved
        apply(session, make_scheme(([], {})))
    cx.true(r.killed is None and len(r.out) == 2, f'help {topic}: {r}')
    text = r.out[0][0] if type(r.out[0]) is tuple else r.out[0]
    plain = CODES.sub('', text)
    try:
        module = importlib.import_module(f'marcel.op.{topic}' if session.env.op_modules.get(topic) else f'marcel.doc.help_{topic}')
    except ModuleNotFoundError:
        module = importlib.import_module(f'marcel.doc.help_{topic}')
    source = module.HELP
    found, expected = plain.split(), strip_markup(source)
    i = next((i for i in range(min(len(found), len(expected))) if found[i] != expected[i]), min(len(found), len(expected)))
    cx.true(found == expected, f'help {topic} at {columns} columns: words {found[i:i + 5]}, expected {expected[i:i + 5]}')
    if columns is not None:
        unwrappable = {' '.join(strip_markup(x)) for x in source.split('\n')}
        for line in plain.split('\n'):
            cx.true(len(line) <= columns or len(line.split()) == 1 or any(' '.join(line.split()) in x for x in unwrappable), f'help {topic} at {columns} columns: line too long: {line!r}')
    # What it refers to exists
    for reference in re.findall(r'\{n:help ([a-z_]+)\}', source) + re.findall(r'\{n:help[ \n]+([a-z_]+)\}', source):
        cx.true(reference in all, f'help {topic} refers to help {reference}, which does not exist')
        cx.true(session.eval(f'help {reference}').killed is None, f'help {topic} refers to help {reference}')
    cx.nontrivial(text != plain)


TEXTS = st.one_of(st.text(st.characters(blacklist_categories=['Cs', 'Cc']), max_size=12), st.sampled_from(['', ' ', 'a b', 'a\nb', '[0m', '0', 'x;1m']))


@st.composite
def coloured(draw):
    kind = draw(st.sampled_from(['text', 'error', 'history', 'scheme', 'file', 'file', 'file', 'process', 'stderr']))
    return kind, draw(schemes()), draw(TEXTS), draw(COLORS), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(['file', 'dir', 'exec', 'link', 'broken', 'dirlink', 'missing'])), draw(st.sampled_from(['', '.jpg', '.txt', '.x.py', 'x']))


@check('colours', coloured, quick=2500, thorough=60000, shards=(3, 4), rule='at least one colour is applied')
def colours(case, cx):
    """Colouring only adds codes."""
    kind, spec, text, color, n, filetype, extension = case
    import marcel.object.color
    import marcel.object.error
    import marcel.object.file
    import marcel.object.historyrecord
    import marcel.object.process
    import marcel.util
    session = mar.shared_session()
    scheme = make_scheme(spec)
    c = marcel.object.color.Color(*color)
    if kind == 'text':
        cx.eq(marcel.util.colorize(text, None), text, 'without a colour')
        full = marcel.util.colorize(text, c)
        plain = text
    elif kind == 'error':
        e = marcel.object.error.Error(text)
        full, plain = e.render_full(scheme), e.render_full(None)
        cx.eq(plain, f'Error: {text}', 'error')
    elif kind == 'history':
        h = marcel.object.historyrecord.HistoryRecord(n, text)
        full, plain = h.render_full(scheme), h.render_full(None)
        cx.eq(plain, f'  {n}:  {text}', 'history record')
    elif kind == 'scheme':
        full, plain = scheme.render_full(make_scheme((spec[0], spec[1]))), scheme.render_full(None)
    elif kind == 'process':
        import psutil
        proc = psutil.Process(os.getpid())
        proc.info = dict(proc.as_dict(['pid', 'ppid', 'username', 'status']), cmdline=[text, 'x'])
        p = marcel.object.process.Process(proc)
        full, plain = p.render_full(scheme), p.render_full(None)
        cx.true(str(os.getpid()) in plain, f'process {plain}')
    elif kind == 'stderr':
        err = io.StringIO()
        apply(session, scheme)
        try:
            with contextlib.redirect_stderr(err):
                marcel.util.print_to_stderr(session.env, text)
        finally:
            apply(session, make_scheme(([], {})))
        full, plain = err.getvalue(), text + '\n'
    else:
        d = f'{cx.scratch}/work/colours'
        os.makedirs(d, exist_ok=True)
        for name in os.listdir(d):
            path = f'{d}/{name}'
            os.rmdir(path) if os.path.isdir(path) and not os.path.islink(path) else os.unlink(path)
        name = (re.sub(r'[/\n]', '', text)[:30].strip('.') or 'f') + extension
        path = f'{d}/{name}'
        if filetype == 'dir':
            os.mkdir(path)
        elif filetype in ('file', 'exec'):
            with open(path, 'w'):
                pass
            os.chmod(path, 0o755 if filetype == 'exec' else 0o644)
        elif filetype != 'missing':
            target = {'link': f'{d}/target{extension}', 'broken': 'nowhere', 'dirlink': '.'}[filetype]
            if filetype == 'link':
                with open(target, 'w'):
                    pass
            os.symlink(target, path)
        f = marcel.object.file.File(path, d)
        if filetype == 'missing':
            cx.exclude('no such file')
            return
        full, plain = f.render_full(scheme), f.render_full(None)
        cx.true(name in plain, f'file {name!r} shown as {plain!r}')
    cx.eq(CODES.sub('', full), plain, f'{kind} {text!r}: without the codes')
    # Codes are balanced: nothing is left coloured
    last = CODES.findall(full)
    cx.true(not last or last[-1] == '\033[0m', f'{kind} {text!r}: colour not reset: {full!r}')
    if kind == 'text':
        r, g, b, style = color
        codes = re.findall('\033\\[([0-9;]*)m', full)
        cx.true(codes[-2] == f'38;5;{16 + 36 * r + 6 * g + b}', f'{text!r}: wrong colour {codes}')
        cx.eq(('1' in codes, '3' in codes), (style & 1 != 0, style & 2 != 0), f'{text!r}: bold, italic: {codes}')
    cx.nontrivial(full != plain)
