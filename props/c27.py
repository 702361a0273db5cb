"""C27: File objects report true metadata, compare as paths, and survive storage and transmission."""
import os
import pathlib
import pickle
import re
import stat
import time

import hypothesis.strategies as st

from harness import mar, trees
from harness.core import check, short

META = ['mode', 'inode', 'device', 'links', 'uid', 'gid', 'size', 'atime', 'mtime', 'ctime']
NAMES = trees.NAMES + ['x.tar.gz', 'n.TXT', 'x.', '.h.txt', 'l.txt', 'e.sh', 'nn\n2', 'two  blanks', 'a -> b']
MODES = [0o644, 0o600, 0o755, 0o000, 0o777, 0o711, 0o421, 0o124, 0o4755, 0o1644, 0o2070]
# None: as made by trees.build
CONTENTS = st.one_of(st.none(), st.lists(st.sampled_from(['a', ' ', '\t', 'b c', '\n', '\n', ' \n', '\t\n', '\r\n', '\r', '\x0b', '\x0c', '\u2028', 'é', '\ufeff', '\xa0\n']), max_size=8).map(''.join))


@st.composite
def listings(draw):
    entries = draw(trees.trees(names=NAMES, special=False, locked=False))
    dirs = [''] + [p for p, k, d in entries if k == 'dir']
    details = {}
    for p, k, _ in entries:
        if k != 'link':
            details[p] = (draw(st.sampled_from(MODES)) if k == 'file' else None,
                          draw(st.sampled_from([0, 1, 86399, 951782400, 1700000000, 4000000000, -1])), draw(st.sampled_from([0, 9, 12345, 12345678])),
                          draw(CONTENTS) if k == 'file' else None)
    cwd = draw(st.sampled_from(dirs))
    # Above the root of the tree is a directory listed just for links to ..
    return entries, cwd, draw(st.sampled_from(['', '-r', '-r', '-0'] + ['-r ..'] * (cwd != ''))), details


def prepare(cx, entries, cwd, details):
    s = mar.shared_session()
    root = os.path.join(cx.scratch, 'home', 'up', 'up', 'tree')
    os.chdir(cx.scratch)
    os.makedirs(os.path.dirname(root), exist_ok=True)
    trees.build(root, entries)
    for path, (mode, mtime, size, contents) in details.items():
        path = os.path.join(root, path)
        if contents is not None:
            with open(path, 'w', newline='') as file:
                file.write(contents)
        if mode is not None:
            if size and not contents:
                os.truncate(path, size)
            os.chmod(path, mode)
        os.utime(path, (mtime, mtime))
    # Later entries changed the times of directories
    for path, (mode, mtime, size, _) in details.items():
        if mode is None:
            os.utime(os.path.join(root, path), (mtime + 5, mtime))
    here = os.path.join(root, cwd) if cwd else root
    os.chdir(here)
    s.env.dir_state().change_current_dir(pathlib.Path(here))
    return s, root, here


def listed(cx, s, command):
    """The Files, and their paths, absolute"""
    r = s.eval(command)
    cx.eq((r.killed, r.stderr, r.errors), (None, '', []), f'{command}: outcome')
    for x in r.out:
        cx.true(len(x) == 1 and type(x[0]).__name__ == 'File', f'{command}: {short(x)}')
    return [x[0] for x in r.out]


def target(path):
    """The target of a link, in the form of a Path (no trailing slash)"""
    return str(pathlib.Path(os.readlink(path)))


def still(lstat):
    """Metadata, without the time of the last access to a directory or link, which changes when it is listed or followed"""
    return tuple(x for i, x in enumerate(lstat) if i != 7 or stat.S_ISREG(lstat[0]))


def fields(line):
    """A line printed for a file, with the padding of columns removed. (ls widens columns when it comes across something wider.)"""
    m = re.fullmatch(r'(\S{10})  ( *\S+)  ( *\S+)  ( *\d+)  (\d{4} \w{3} \d\d \d\d:\d\d:\d\d)  (.*)', line, re.DOTALL)
    return m and tuple(x.lstrip(' ') if 0 < i < 4 else x for i, x in enumerate(m.groups()))


def output_fields(out):
    lines = re.split(r'\n(?=[-dl][-rwx]{9}  )', out[:-1]) if out else []
    return [fields(line) or line for line in lines]


@check('properties', listings, quick=500, thorough=10000, shards=(2, 6), rule='at least three files, at least one below the current directory or a link')
def properties(case, cx):
    entries, cwd, args, details = case
    s, root, here = prepare(cx, entries, cwd, details)
    try:
        files = listed(cx, s, f'ls {args}')
        s.set('META', META)
        for f in files:
            path = os.path.normpath(str(f.path))
            cx.true(os.path.isabs(path) and os.path.lexists(path), f'{f}: {f.path}')
            lstat = os.lstat(path)
            for i, a in enumerate(META):
                # Listing a directory or following a link may change the time of its last access
                if a != 'atime' or stat.S_ISREG(lstat.st_mode):
                    cx.eq(getattr(f, a), lstat[i], f'{path}: {a}')
            p = pathlib.Path(path)
            for a in ['name', 'stem', 'suffix', 'suffixes', 'parent', 'parts', 'anchor']:
                cx.eq(getattr(f, a), getattr(p, a), f'{path}: {a}')
            cx.eq((f.is_dir(), f.is_file(), f.is_symlink(), f.exists()), (p.is_dir(), p.is_file(), p.is_symlink(), p.exists()), f'{path}: kind')
            if stat.S_ISLNK(lstat.st_mode):
                cx.eq(str(f.readlink()), target(path), f'{path}: readlink()')
                cx.label('link')
        # In a function of the language
        r = s.eval(f'ls {args} | (f: tuple([getattr(f, a) for a in META]))')
        cx.eq([still(x) for x in r.out], [still(os.lstat(f.path)[:10]) for f in files], f'ls {args} | map')
        # Contents (last, because reading changes metadata)
        for f in files:
            path = str(f.path)
            if f.is_file() and not f.is_symlink() and os.lstat(path).st_size < 100 and os.access(path, os.R_OK):
                with open(path) as file:
                    text = file.read()
                cx.eq(f.read(), text, f'{path}: read()')
                lines = text.split('\n')
                cx.eq(f.readlines(), lines[:-1] if lines[-1] == '' else lines, f'{path}: readlines()')
        cx.nontrivial(len(files) > 2 and any(f.is_symlink() or f.parent != pathlib.Path(here) for f in files))
    finally:
        os.chdir(cx.scratch)
        trees.clear(root)


ESCAPES = re.compile('\x1b' + r'\[[0-9;]*m')


def rwx(mode):
    return ''.join(c if mode & 1 << 8 - i else '-' for i, c in enumerate('rwxrwxrwx'))


def expected_line(path, name, columns, lstat):
    line = '  '.join([('l' if stat.S_ISLNK(lstat.st_mode) else 'd' if stat.S_ISDIR(lstat.st_mode) else '-') + rwx(lstat.st_mode),
                      f'{user(lstat.st_uid):>{columns[0]}}', f'{group(lstat.st_gid):>{columns[1]}}', f'{lstat.st_size:>{columns[2]}}',
                      time.strftime('%Y %b %d %H:%M:%S', time.localtime(lstat.st_mtime)), name])
    if stat.S_ISLNK(lstat.st_mode):
        line += f'  ->  {target(path)}'
    return line


def user(uid):
    import pwd
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return str(uid)


def group(gid):
    import grp
    try:
        return grp.getgrgid(gid).gr_name
    except KeyError:
        return str(gid)


def scheme():
    from marcel.object.color import Color, ColorScheme
    cs = ColorScheme()
    for i, n in enumerate(['file_file', 'file_dir', 'file_link', 'file_link_broken', 'file_executable']):
        setattr(cs, n, Color(i, 0, 0))
    cs.file_extension = {'txt': Color(5, 5, 5), 'gz': Color(4, 4, 4, Color.BOLD)}
    return cs


def color_of(cs, path):
    ext = pathlib.Path(path).suffix.lower()[1:]
    if ext in cs.file_extension:
        return cs.file_extension[ext]
    if os.path.islink(path):
        return cs.file_link if os.path.exists(path) else cs.file_link_broken
    return cs.file_dir if os.path.isdir(path) else cs.file_executable if os.access(path, os.X_OK) else cs.file_file


@check('rendering', listings, quick=600, thorough=14000, shards=(2, 6), rule='at least three files, at least one below the current directory or a link')
def rendering(case, cx):
    """What is printed shows the type, permissions, owner, size, time, name and target of each file; the colours, its kind."""
    entries, cwd, args, details = case
    s, root, here = prepare(cx, entries, cwd, details)
    try:
        files = listed(cx, s, f'ls {args}')
        out, err = s.command(f'ls {args}')
        cx.eq(err, '', 'stderr')
        # Names are relative to the directory listed
        base = os.path.dirname(here) if args == '-r ..' else here
        names = [os.path.relpath(f.path, base) if not os.path.samefile(base, f.path.parent) or f.name in ('', '..') else f.name for f in files] if files else []
        stats = [os.lstat(f.path) for f in files]
        columns = [max([6] + [len(user(x.st_uid)) for x in stats]), max([6] + [len(group(x.st_gid)) for x in stats]), max([6] + [len(str(x.st_size)) for x in stats])]
        cs = scheme()
        lines = []
        for f, x in zip(files, stats):
            colored = f.render_full(cs)
            plain = f.render_full(None)
            cx.eq(ESCAPES.sub('', colored), plain, f'{f.path}: coloured and plain text')
            compact = plain[len('  '.join(['-' * 10, ' ' * columns[0], ' ' * columns[1], ' ' * columns[2], ' ' * 20])) + 2:]
            name = compact.rsplit('  ->  ' + target(f.path), 1)[0] if stat.S_ISLNK(x.st_mode) else compact
            cx.eq(os.path.normpath(os.path.join(base, name)), os.path.normpath(str(f.path)), f'{f.path}: name in {plain!r}')
            line = expected_line(f.path, name, columns, x)
            cx.eq(plain, line, f'{f.path}: rendered')
            lines.append(line)
            color = color_of(cs, f.path)
            from marcel.util import colorize
            cx.true(colorize(name, color) in colored, f'{f.path} of {entries}: expected {color}, got {colored!r}')
            cx.label(str(color))
        cx.eq(output_fields(out), [fields(line) for line in lines], f'ls {args}: printed')
        cx.nontrivial(len(files) > 2 and any(f.is_symlink() or f.parent != pathlib.Path(here) for f in files))
    finally:
        os.chdir(cx.scratch)
        trees.clear(root)


@st.composite
def metadata(draw):
    """Metadata received with the File, which describes a file of another system."""
    ids = st.sampled_from([0, 1, 2, 65534, 42, 999999, 1234567890])
    return [(draw(st.sampled_from([0o100000, 0o040000])) | draw(st.integers(0, 0o777)), draw(ids), draw(ids),
             draw(st.sampled_from([0, 1, 999999, 1000000, 2 ** 40])), draw(st.integers(0, 2 ** 32)), draw(st.text('abé .', min_size=1, max_size=4)))
            for _ in range(draw(st.integers(1, 5)))], draw(st.booleans()), draw(st.booleans())


@check('transmitted', metadata, quick=700, thorough=12000, shards=(1, 4), rule='at least two files, with ids or sizes of different lengths')
def transmitted(case, cx):
    """Files which are sent carry their metadata with them: the columns of a listing are aligned."""
    from marcel.object.file import File, FileFormatting
    rows, aligned, sent = case
    formatting = FileFormatting()
    files = []
    for i, (mode, uid, gid, size, mtime, name) in enumerate(rows):
        f = File(pathlib.Path(f'/nonexistent/x{i}{name}'), pathlib.Path('/nonexistent'))
        f.lstat = os.stat_result((mode, i, 3, 1, uid, gid, size, mtime, mtime, mtime))
        f.executable = False
        if aligned:
            f.adjust_formatting(formatting)
        files.append(f)
    if sent:
        files = [pickle.loads(pickle.dumps(f)) for f in files]
    columns = [6, 6, 6]
    if aligned:
        columns = [max([6] + [len(user(r[1])) for r in rows]), max([6] + [len(group(r[2])) for r in rows]), max([6] + [len(str(r[3])) for r in rows])]
    for i, (f, r) in enumerate(zip(files, rows)):
        mode, uid, gid, size, mtime, name = r
        cx.eq((f.mode, f.uid, f.gid, f.size, f.mtime), (mode, uid, gid, size, mtime), 'properties')
        line = '  '.join([('d' if stat.S_ISDIR(mode) else '-') + rwx(mode), f'{user(uid):>{columns[0]}}', f'{group(gid):>{columns[1]}}', f'{size:>{columns[2]}}',
                          time.strftime('%Y %b %d %H:%M:%S', time.localtime(mtime)), f'x{i}{name}'])
        cx.eq(f.render_full(None), line, f'{r}')
        cx.eq(str(f.path), f'/nonexistent/x{i}{name}', 'path')
    cx.nontrivial(len(rows) > 1 and len({(len(user(r[1])), len(group(r[2])), len(str(r[3]))) for r in rows}) > 1)


path_texts = st.lists(st.sampled_from(['a', 'b', 'A', 'a.txt', 'ab', 'a b', 'é', '.', '..', '/', '//', 'a0', 'Z', '-', '']), min_size=1, max_size=4).map('/'.join)


@st.composite
def orders(draw):
    return draw(st.lists(path_texts, min_size=1, max_size=8)), draw(st.lists(st.sampled_from([0, 1, None, 'a', '', (), (1,), 2.5, False]), min_size=1, max_size=3)), \
        draw(st.integers(0, 1000))


@check('order', orders, quick=1500, thorough=25000, shards=(1, 4), rule='at least two different paths')
def order(case, cx):
    """Files compare, hash, and sort as their paths do, and are different from everything else."""
    from marcel.object.file import File
    texts, others, seed = case
    paths = [pathlib.Path(t) for t in texts]
    files = [File(p) for p in paths]
    for p, f in zip(paths, files):
        for q, g in zip(paths, files):
            cx.eq((f == g, f != g, f < g, f <= g, f > g, f >= g), (p == q, p != q, p < q, p <= q, p > q, p >= q), f'{f} and {g}')
            cx.true(p != q or hash(f) == hash(g), f'{f} and {g}: hash')
        for o in others:
            cx.eq((f == o, f != o, o == f, o != f), (False, True, False, True), f'{f} and {o!r}')
            cx.eq(({f: 1}.get(o), o in [f], (f, o) == (o, f)), (None, False, False), f'{f} and {o!r}: lookup')
    cx.eq([f.path for f in sorted(files)], sorted(paths), 'sorted')
    s = mar.shared_session()
    s.set('FILES', files)
    s.set('MIXED', files + others)
    r = s.eval(f'gen {len(files)} | (i: FILES[i]) | sort')
    cx.eq([x[0].path for x in r.out], sorted(paths), f'{texts}: sort')
    r = s.eval(f'gen {len(files)} | (i: FILES[i]) | unique')
    cx.eq([x[0].path for x in r.out], list(dict.fromkeys(paths)), f'{texts}: unique')
    n = len(files) + len(others)
    r = s.eval(f'gen {n} | (i: MIXED[i]) | unique')
    # unique sees one value, or one tuple
    expected = list(dict.fromkeys([p for p in paths] + [o if type(o) is tuple else (o,) for o in others]))
    cx.eq([x[0].path if len(x) == 1 and type(x[0]) is File else x for x in r.out], expected, f'{texts} {others}: unique')
    cx.nontrivial(len(set(paths)) > 1)


@st.composite
def journeys(draw):
    entries, cwd, args, details = draw(listings())
    dirs = [''] + [p for p, k, d in entries if k == 'dir']
    return (entries, cwd, args, details, draw(st.sampled_from(dirs)),
            draw(st.sampled_from(['store', 'pickle', 'fork', 'copy', 'variable', 'nested'])), draw(st.sampled_from(['keep', 'change', 'remove'])))


@check('journeys', journeys, quick=500, thorough=12000, shards=(2, 6), rule='at least two files, and another current directory or changed files')
def survives(case, cx):
    """A File that was stored or sent is the same file afterwards, wherever that is, with the metadata it had."""
    entries, cwd, args, details, to, how, what = case
    s, root, here = prepare(cx, entries, cwd, details)
    keep = f'{cx.scratch}/home/kept.pickle'
    try:
        files = listed(cx, s, f'ls {args}')
        before = [(str(f.path), still(f.lstat), fields(f.render_full(None))) for f in files]
        ls = f'ls {args}'
        if how == 'store':
            out = s.command(f'{ls} | store kept')
        elif how == 'pickle':
            out = s.command(f'{ls} | write -p {keep}')
        elif how == 'variable':
            s.set('kept', [pickle.loads(pickle.dumps(f)) for f in files])
            out = '', ''
        elif how == 'nested':
            out = s.command(f'{ls} | (f: (1, [f], {{"k": f}})) | store kept')
        elif how == 'copy':
            import marcel.util
            s.set('kept', marcel.util.copy(files))
            out = '', ''
        else:
            out = '', ''
        cx.eq(out, ('', ''), f'{how}')
        if how != 'fork':
            s.env.dir_state().change_current_dir(pathlib.Path(root) / to)
            os.chdir(pathlib.Path(root) / to)
            if what != 'keep':
                for p, _, _ in before:
                    if os.path.isfile(p) and not os.path.islink(p):
                        if what == 'remove':
                            os.unlink(p)
                        else:
                            os.chmod(p, 0o640)
                            os.truncate(p, 77)
        command = {'store': 'load kept', 'pickle': f'read -p {keep}', 'fork': f'fork 1 (| {ls} |)', 'variable': f'gen {max(1, len(files))} | select (i: i < len(kept)) | (i: kept[i])',
                   'copy': f'gen {max(1, len(files))} | select (i: i < len(kept)) | (i: kept[i])', 'nested': 'load kept | (a, l, d: (l[0], d["k"]))'}[how]
        r = s.eval(command)
        cx.eq((r.killed, r.stderr, r.errors), (None, '', []), f'{command}: outcome')
        got = [x for x in r.out]
        cx.eq(len(got), len(files), f'{how} {command}: number of files')
        for x, (path, lstat, rendered) in zip(got, before):
            for f in x:
                cx.true(type(f).__name__ == 'File', f'{command}: {short(x)}')
                cx.eq(str(f.path), path, f'{command}: path')
                cx.eq(still(tuple(getattr(f, a) for a in META)), lstat, f'{command}: {path}: metadata')
                if what != 'remove':
                    cx.eq(fields(f.render_full(None)), rendered, f'{command}: rendered')
        cx.nontrivial(len(files) > 1 and (to != cwd or what != 'keep') and how != 'fork')
        cx.label(how)
    finally:
        os.chdir(cx.scratch)
        trees.clear(root)
        if os.path.exists(keep):
            os.unlink(keep)
