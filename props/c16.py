"""C16: tuples survive write and read, in every format; read delivers every record of every file."""
import io
import json
import os
import pathlib
import pickle

import hypothesis.strategies as st

from harness import mar
from harness.core import check
from harness.vals import same, values

TEXT = st.text(st.one_of(st.sampled_from('ab,"\'\t\n\r ;\\{}é\x85 '), st.characters(exclude_categories=['Cs'])), max_size=6)
FIELD = st.one_of(TEXT, TEXT, st.sampled_from(['', 'a', '"', '""', ',', '\n', '\r\n', ' x ', '1', "'", '\\', '#', 'a\nb', '\ufeff']),
                  st.integers(-9, 9), st.floats(), st.booleans(), st.none())
NAMES = ['f', 'a b', "it's", 'x.csv', '.hid', 'é', 'sub/g', '[1]', '-x']


def setup(cx):
    """An empty directory, which is the session's current directory."""
    s = mar.shared_session()
    work = pathlib.Path(cx.scratch) / 'work' / 'c16'
    os.makedirs(work / 'sub', exist_ok=True)
    os.chdir(work)
    s.env.dir_state().change_current_dir(work)
    return s, work


def quote(name):
    return '"' + name.replace('\\', '\\\\').replace('"', '\\"') + '"'


# ----------------------------------------------------------------------------------------------------------------------
# write, then read

FORMATS = ['{}', '{0}-{1}', '<{0!r}>', 'x', '{1:>5}|{0}', '{{}}{}', '{0[0]}']


@st.composite
def batches(draw):
    format = draw(st.sampled_from(['csv', 'tsv', 'pickle', 'text', 'csv', 'tsv', 'text', 'format']))
    field = values if format == 'pickle' else FIELD
    row = st.lists(field, min_size=0 if format in ('csv', 'tsv') else 1, max_size=4 if format != 'text' else 2)
    n = draw(st.integers(1, 3))
    return (format, draw(st.sampled_from(FORMATS)), draw(st.sampled_from(NAMES)), draw(st.sampled_from(['rel', 'abs', 'home', 'var'])),
            draw(st.booleans()),
            [(draw(st.lists(st.one_of(row, row.map(tuple)), max_size=5)), draw(st.booleans()), draw(st.sampled_from(['', 'map (*t: len(t))', 'head 1'])))
             for _ in range(n)])


def text_form(row):
    return str(row[0]) if len(row) == 1 else str(row)


def lines(text):
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    x = text.split('\n')
    if x[-1] == '':
        x.pop()
    return x


@check('round trip', batches, quick=1600, thorough=60000, shards=(4, 6), rule='at least two rows were written, and read back')
def round_trip(case, cx):
    format, spec, name, how, long, writes = case
    s, work = setup(cx)
    dir = work if how != 'home' else pathlib.Path(os.environ['HOME'])
    if how == 'home':
        name = 'c16file' + name.replace('/', '_').replace(' ', '_')
    path = dir / name
    if path.exists():
        path.unlink()
    if how == 'var':
        s.set('FN', name)
    filename = {'rel': quote(name if name[0] != '-' else './' + name), 'abs': quote(str(path)), 'home': f'~/{quote(name)}', 'var': '(FN)'}[how]
    if how == 'home':
        filename = quote(f'~/{name}')
    flag = {'csv': ('-c', '--csv'), 'tsv': ('-t', '--tsv'), 'pickle': ('-p', '--pickle'), 'text': ('', ''),
            'format': (f'-f {quote(spec)}', f'--format {quote(spec)}')}[format][long]
    written = []
    text = ''
    history = []
    for rows, append, after in writes:
        s.set('V', rows)
        command = (f'gen {len(rows)} | map (i: V[i])' if rows else 'gen 1 | select (x: False)') + \
                  f' | write {flag} {("--append" if long else "-a") if append else ""} {filename}' + (f' | {after}' if after else '')
        history.append((command, rows))
        errors = 0
        if not append:
            written, text = [], ''
        for row in rows:
            written.append(row)
            if format == 'format':
                try:
                    text += spec.format(*row) + '\n'
                except Exception:
                    errors += 1
            elif format == 'text':
                text += text_form(row) + '\n'
        r = s.eval(command)
        expected = [(len(row),) for row in rows] if after.startswith('map') else rows[:1] if after else rows
        cx.true(r.killed is None and same(r.values, expected) and (len(r.errors) == errors or after == 'head 1') and not r.stderr,
                f'{history}: write should pass its input on: {r}')
    cx.label(format)
    if len(written) >= 2:
        cx.nontrivial()
    what = f'{history}'
    read_name = quote(str(path)) if '[' not in str(path) else None
    if read_name is None:
        s.set('FN', path)
        read_name = '(FN)'
    if format in ('text', 'format'):
        with open(path, newline='') as f:
            content = f.read()
        cx.eq(content, text, f'{what}: contents of the file')
        expected = [(line,) for line in lines(text)]
        r = s.eval(f'read {read_name}')
    elif format == 'pickle':
        expected = written
        r = s.eval(f'read {"--pickle" if long else "-p"} {read_name}')
    else:
        expected = [tuple('' if x is None else str(x) for x in row) for row in written]
        r = s.eval(f'read {flag} {read_name}')
    cx.true(r.killed is None and not r.stderr, f'{what}: read: {r}')
    cx.true(same(r.out, expected), f'{what}: read: expected {expected!r}, got {r.out!r}')


# ----------------------------------------------------------------------------------------------------------------------
# read

HEADINGS = ['a', 'b', 'c1', 'b c', 'x-y', 'é', 'A', 'col.1', ' pad ']
BAD_HEADINGS = [['1x'], ['a', 'a'], ['_z'], ['class'], ['a b', 'a_b'], ['a', '']]
CSV_FIELD = st.text(st.sampled_from('abc,\t"\n\'é 1;'), max_size=4)


@st.composite
def csv_file(draw):
    eol = draw(st.sampled_from(['\n', '\n', '\r\n']))
    headings = draw(st.one_of(st.lists(st.sampled_from(HEADINGS), min_size=1, max_size=4, unique=True), st.lists(
        st.sampled_from(HEADINGS), min_size=1, max_size=4, unique=True), st.sampled_from(BAD_HEADINGS)))
    width = len(headings)
    records = [headings] + draw(st.lists(st.lists(CSV_FIELD, min_size=draw(st.sampled_from([0, 1, 1])), max_size=width + 1), max_size=5))
    if draw(st.integers(0, 9)) == 0:
        records = []
    quoted = draw(st.lists(st.booleans(), min_size=7, max_size=7))
    return records, eol, quoted, draw(st.booleans())


def render_csv(file, delimiter):
    records, eol, quoted, final = file
    out = []
    k = 0
    for record in records:
        fields = []
        for f in record:
            k += 1
            if quoted[k % len(quoted)] or any(c in f for c in ',\t"\n\r') or len(record) == 1 and f == '' or f[:1] == ' ':
                f = '"' + f.replace('"', '""') + '"'
            fields.append(f)
        out.append(delimiter.join(fields))
    text = eol.join(out)
    # A last record that is blank needs its end of line
    return text + (eol if out and (final or not out[-1]) else '')


@st.composite
def text_file(draw):
    n = draw(st.integers(0, 5))
    return [draw(st.text(st.sampled_from('ab ,"\té\x0c'), max_size=5)) for _ in range(n)], draw(st.sampled_from(['\n', '\r\n', '\n'])), draw(st.booleans())


def render_text(file):
    records, eol, final = file
    text = eol.join(records)
    return text + (eol if records and (final or records[-1] == '') else '')


JSON = st.recursive(st.one_of(st.integers(), st.text(max_size=4), st.none(), st.booleans(), st.floats(allow_nan=False)), lambda x: st.lists(x, max_size=3), max_leaves=5)


@st.composite
def reads(draw):
    kind = draw(st.sampled_from(['csv', 'tsv', 'csv', 'text', 'text', 'pickle', 'json']))
    file = {'csv': csv_file(), 'tsv': csv_file(), 'text': text_file(), 'json': JSON,
            'pickle': st.lists(st.lists(values, min_size=1, max_size=2).map(tuple), max_size=4)}[kind]
    names = draw(st.lists(st.sampled_from(['f1', 'f2', 'f 3', 'sub/f4', 'F5.csv', 'sub/f6']), min_size=1, max_size=4, unique=True))
    files = [(n, draw(st.sampled_from(['ok'] * 8 + ['unreadable', 'garbage'])), draw(file)) for n in names]
    return (kind, files, draw(st.booleans()), draw(st.sampled_from(['', 'headings', 'skip'])) if kind in ('csv', 'tsv') else '',
            draw(st.sampled_from(['names', 'names', 'twice', 'glob', 'ls', 'recursive', 'files'])), draw(st.booleans()))


def identifier(field):
    field = field.strip()
    if field.isidentifier():
        return field
    return ''.join(c if c.isascii() and (c.isalnum() or c == '_') else '_' for c in field)


@check('read', reads, quick=1600, thorough=50000, shards=(4, 6), rule='at least two files, or headings, or a label')
def read(case, cx):
    import keyword
    kind, files, label, headings, how, long = case
    s, work = setup(cx)
    for old in list(work.glob('*')) + list(work.glob('sub/*')):
        if old.is_file():
            old.unlink()
    for name, state, content in files:
        if kind in ('csv', 'tsv', 'text'):
            text = render_text(content) if kind == 'text' else render_csv(content, ',' if kind == 'csv' else '\t')
            data = text.encode()
        elif kind == 'json':
            data = json.dumps(content, indent=2 if long else None).encode()
        else:
            buffer = io.BytesIO()
            for row in content:
                pickle.dump(row, buffer, protocol=3)
            data = buffer.getvalue()
        if state == 'garbage':
            data = (b'{"a": ' if kind == 'json' else b'\xff\xfe"' if kind != 'pickle' else b'\x80garbage')
        (work / name).write_bytes(data)
        (work / name).chmod(0o000 if state == 'unreadable' else 0o600)
    names = [f[0] for f in files]
    initials = [c for c in 'fF' if any(n[0] == c for n in names)]
    if how == 'glob' and len(initials) == 2:
        names = [n for n in names if '/' not in n]
    if not names:
        return
    flags = {'csv': ['-c', '--csv'], 'tsv': ['-t', '--tsv'], 'text': ['', ''], 'pickle': ['-p', '--pickle'], 'json': ['-j', '--json']}[kind][long]
    if label:
        flags += ' --label' if long else ' -l'
    if headings:
        flags += {'headings': [' -h', ' --headings'], 'skip': [' -s', ' --skip-headings']}[headings][long]
    quoted = ' '.join(f'"{n}"' for n in names)
    if how == 'twice':
        quoted += f' "{names[0]}" "./{names[-1]}"'
    text = (f'read {flags} {quoted}' if how in ('names', 'twice') else
            f'read {flags} f* F*' if how == 'glob' and len(initials) == 2 else
            f'read {flags} *' if how == 'glob' else
            f'ls -f {quoted} | read {flags}' if how == 'ls' else
            f'read {"--recursive" if long else "-r"} {flags} .' if how == 'recursive' else
            f'ls -f {quoted} | args (| f: read {flags} (f) |)')
    r = s.eval(text)
    cx.true(r.killed is None and not r.stderr, f'{text}: {r}; {files}')
    expected = []
    by_name = {f[0]: f for f in files}
    for name in sorted(names, key=lambda n: pathlib.Path(n)):
        _, state, content = by_name[name]
        lab = (name,) if label else ()
        if state == 'unreadable':
            # Files that cannot be opened are skipped
            cx.label(state)
        elif state != 'ok':
            cx.label(state)
            expected.append(('error', name))
        elif kind == 'text':
            expected.extend(lab + (x,) for x in content[0])
        elif kind == 'pickle':
            expected.extend(lab + x for x in content)
        elif kind == 'json':
            expected.append(lab + (content,) if label else content if type(content) is list else (content,))
        else:
            records = [tuple(x) for x in content[0]]
            fields = None
            if headings and records:
                first = records.pop(0)
                if headings == 'headings':
                    fields = (('LABEL',) if label else ()) + tuple(identifier(x) for x in first)
                    if any(not f.isidentifier() or keyword.iskeyword(f) or f.startswith('_') for f in fields) or len(set(fields)) < len(fields):
                        cx.label('unusable headings')
                        fields = None
                        expected.append(('error', None))
            for x in records:
                x = lab + x
                if fields is None:
                    expected.append(x)
                elif len(x) > len(fields):
                    expected.append(('error', None))
                else:
                    expected.append(('named', fields, x + (None,) * (len(fields) - len(x))))
    cx.nontrivial(len(names) > 1 or label or headings != '')
    cx.label(kind)
    cx.label(how)

    def relabel(x):
        # The label is a File
        if label and len(x) > 0 and type(x[0]).__name__ == 'File':
            path = str(x[0].path)
            cx.true(path.startswith(str(work) + '/'), f'{text}: label {path}')
            return (path[len(str(work)) + 1:],) + tuple(x[1:])
        return x

    actual = []
    for x in r.out:
        if mar.is_error(x):
            actual.append(('error', x[1]))
        elif len(x) == 1 and hasattr(x[0], '_fields'):
            actual.append(('named', x[0]._fields, relabel(tuple(x[0]))))
        else:
            actual.append(relabel(x))
    cx.eq(len(actual), len(expected), f'{text}: {files}: expected {expected}, got {r.out}; number of outputs')
    for a, e in zip(actual, expected):
        if e[:1] == ('error',) and len(e) == 2 and (e[1] is None or e[1] in names):
            cx.true(a[0] == 'error' and (e[1] is None or e[1] in a[1]), f'{text}: {files}: expected error {e}, got {a} in {r.out}')
        else:
            cx.true(same(a, e), f'{text}: {files}: expected {e}, got {a} in {r.out}')
