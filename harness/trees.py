"""Generated directory trees."""
import fnmatch
import os
import pathlib
import shutil
import socket
import stat

import hypothesis.strategies as st

NAMES = ['a', 'b', 'c', 'd', 'ab', '.h', 'a b', '[a]', '*', 'é', 'x.txt', 'A', '-f', 'a\\b', "it's", '~', '$x', '"q"', 'b.c', 'a;b', '{x}', '?']
PLAIN = ['a', 'b', 'c', 'd', 'ab', 'x.txt', 'b.c', '.h', 'A']


@st.composite
def trees(draw, names=NAMES, max_entries=10, special=True, locked=True):
    """[(path relative to the root, kind, detail)]. A parent always precedes its children."""
    entries = []
    dirs = ['']
    paths = set()
    for _ in range(draw(st.sampled_from([0, 2, 5, 7, max_entries, max_entries + 3]))):
        parent = draw(st.sampled_from(dirs))
        path = os.path.join(parent, draw(st.sampled_from(names)))
        if path in paths:
            continue
        kind = draw(st.sampled_from(['file', 'dir', 'dir', 'file', 'link', 'dir'] + (['fifo', 'socket', 'exec'] if special else [])))
        detail = None
        if kind == 'link':
            up = '../' * parent.count('/') + ('../' if parent else '')
            detail = draw(st.sampled_from(['.', '..', 'nowhere', 'a', 'a/b', 'b', '/', 'self'] + [up + p for p in sorted(paths)] + [up or '.']))
            if detail == 'self':
                detail = os.path.basename(path)
            if detail == '/':
                detail = '/nonexistent/x'
        elif kind == 'dir':
            dirs.append(path)
            detail = draw(st.sampled_from([0o755] * 8 + ([0o000, 0o444, 0o333, 0o555] if locked else [0o755])))
        elif kind == 'file':
            detail = draw(st.integers(0, 3))
        paths.add(path)
        entries.append((path, kind, detail))
    return entries


def clear(root):
    """Remove root, whatever the permissions inside."""
    if not os.path.lexists(root):
        return
    for dir, dirs, _ in os.walk(root):
        for d in dirs:
            path = os.path.join(dir, d)
            if not os.path.islink(path):
                os.chmod(path, 0o700)
    shutil.rmtree(root)


def build(root, entries):
    clear(root)
    os.mkdir(root)
    for path, kind, detail in entries:
        path = os.path.join(root, path)
        if kind in ('file', 'exec'):
            with open(path, 'w') as f:
                f.write('x\n' * (detail or 0))
            if kind == 'exec':
                os.chmod(path, 0o755)
        elif kind == 'dir':
            os.mkdir(path)
        elif kind == 'link':
            os.symlink(detail, path)
        elif kind == 'fifo':
            os.mkfifo(path)
        elif kind == 'socket':
            # A socket's path must be short
            here = os.getcwd()
            os.chdir(os.path.dirname(path))
            s = socket.socket(socket.AF_UNIX)
            s.bind(os.path.basename(path))
            s.close()
            os.chdir(here)
    # Permissions last, deepest first
    for path, kind, detail in reversed(entries):
        if kind == 'dir' and detail != 0o755:
            os.chmod(os.path.join(root, path), detail)


def type_of(path):
    """'f', 'd', 's', or '' (something else), or None if that cannot be determined"""
    try:
        mode = os.lstat(path).st_mode
    except OSError:
        return None
    return 's' if stat.S_ISLNK(mode) else 'd' if stat.S_ISDIR(mode) else 'f' if stat.S_ISREG(mode) else ''


# Arguments denoting files

COMPONENTS = ['*', '?', '[ab]', 'a*', '*.txt', '[!a]*', '.*', '??', '*b*', '[a-c]']


@st.composite
def arguments(draw, entries, cwd, sizes=(0, 1, 1, 1, 2, 2, 3)):
    """[(kind, text)]. Kinds: q: quoted, the name of a file. g: a pattern. v: a string value of a variable (a pattern).
    p, F: a Path or File value. Relative ones are relative to cwd."""
    paths = [e[0] for e in entries]
    args = []
    for _ in range(draw(st.sampled_from(sizes))):
        kind = draw(st.sampled_from(['q', 'q', 'g', 'g', 'v', 'p', 'F']))
        target = draw(st.sampled_from(paths + ['', 'missing', 'a'] if paths else ['', 'missing']))
        # Relative to cwd
        path = os.path.relpath('/' + target, '/' + cwd)
        if draw(st.integers(0, 5)) == 0:
            path = draw(st.sampled_from(['', './', 'a/../', './/'])) + path + draw(st.sampled_from(['', '/', '/.', '//']))
        if kind in 'gv':
            parts = path.split('/')
            if draw(st.integers(0, 3)) > 0 and parts:
                i = draw(st.integers(0, len(parts) - 1))
                if parts[i] not in ('.', '..'):
                    parts[i] = draw(st.sampled_from(COMPONENTS))
                if draw(st.integers(0, 3)) == 0:
                    parts.append(draw(st.sampled_from(COMPONENTS)))
            path = '/'.join(parts)
        form = draw(st.sampled_from(['rel', 'rel', 'abs', 'home']))
        args.append((kind, form, path))
    return args


def magic(part):
    return any(c in part for c in '*?[')


def literal(path):
    return [path] if type_of(path) is not None else []


def quote(name):
    if "'" not in name:
        return f"'{name}'"
    return ''.join(c if c.isalnum() or c in '~/.-_' else '\\' + c for c in name)


def argument_texts(s, root, here, args):
    """The texts of the arguments, and the paths they select"""
    texts = []
    selected = []
    for i, (kind, form, path) in enumerate(args):
        absolute = os.path.normpath(os.path.join(here, path))
        if form == 'home':
            shown = '~' + absolute[len(os.path.dirname(root)):] if absolute.startswith(root) else absolute
        elif form == 'abs':
            shown = absolute
        else:
            # A leading ~ is the home directory
            shown = path if not os.path.normpath(path).startswith('~') else absolute if kind in 'pF' else './' + path
        if kind == 'g':
            # In a bare word, only patterns' characters are special. Everything else can be escaped.
            text = ''.join(c if c in '*?[]!~/.-' or c.isalnum() else '\\' + c for c in shown)
            if shown.startswith('-'):
                shown = './' + shown
                text = './' + text
        else:
            var = f'V{i}'
            if kind == 'v':
                s.set(var, shown)
            elif kind in 'pF':
                import marcel.object.file
                # A Path is not expanded by a shell
                s.set(var, pathlib.Path(shown) if kind == 'p' else marcel.object.file.File(pathlib.Path(shown)))
            text = f'({var})' if kind != 'q' else quote(shown if shown[:1] != '-' else './' + shown)
        texts.append(text)
        if kind in 'gv':
            # The current directory is not part of the pattern
            if form == 'rel':
                top = here
                parts = os.path.normpath(path).split('/')
                while parts and parts[0] in ('..', '.'):
                    top = os.path.normpath(os.path.join(top, parts.pop(0)))
                found = expand_from(top, parts)
            else:
                # Only the part below the parent of the tree can be a pattern
                top = os.path.dirname(root)
                found = expand_from(top, absolute[len(top) + 1:].split('/')) if absolute.startswith(top + '/') else literal(absolute)
        else:
            found = literal(absolute)
        selected.extend(found)
    return texts, selected


def expand_from(top, parts):
    found = [top]
    for part in parts:
        new = []
        for base in found:
            if magic(part):
                try:
                    names = os.listdir(base)
                except OSError:
                    continue
                new.extend(os.path.join(base, n) for n in names if fnmatch.fnmatchcase(n, part))
            else:
                new.append(os.path.join(base, part))
        found = new
    return [x for x in found if magic(parts[-1]) or type_of(x) is not None] if parts else found
