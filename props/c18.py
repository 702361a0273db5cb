"""C18: ls lists exactly the files selected by its arguments, each once."""
import os
import pathlib

import hypothesis.strategies as st

from harness import mar, trees
from harness.core import check

@st.composite
def cases(draw):
    entries = draw(trees.trees())
    dirs = [''] + [p for p, k, d in entries if k == 'dir' and d == 0o755 and all(
        q != p and not p.startswith(q + '/') for q, qk, qd in entries if qk == 'dir' and qd != 0o755)]
    cwd = draw(st.sampled_from(dirs))
    args = draw(trees.arguments(entries, cwd))
    return (entries, cwd, args, draw(st.sampled_from(['', '', '-0', '-1', '-r', '-r', '--recursive'])),
            draw(st.sampled_from(['', '', '', '-f', '-d', '-s', '-fd', '-fs', '-ds', '-fds'])))


def unknown(path):
    """Is it impossible to find out what this link points to?"""
    try:
        os.stat(path)
    except PermissionError:
        return True
    except OSError:
        pass
    return False


def reference(roots, depth, include):
    """Items: paths, or ('#error', path)."""
    out = []
    emitted = set()
    visited = set()

    def visit(path, level):
        t = trees.type_of(path)
        if t is None:
            out.append(('#error', path))
            return
        if t and t in include and path not in emitted:
            emitted.add(path)
            out.append(path)
        if t == 's' and unknown(path):
            out.append(('#maybe', path))
            return
        if (depth == 'r' or depth == '1' and level == 0) and os.path.isdir(path):
            st = os.stat(path)
            if t == 's' and (st.st_dev, st.st_ino) in visited:
                return
            visited.add((st.st_dev, st.st_ino))
            try:
                names = os.listdir(path)
            except OSError:
                out.append(('#error', path))
                return
            for p in sorted(pathlib.Path(path) / n for n in names):
                visit(str(p), level + 1)

    for root in roots:
        visit(str(root), 0)
    return out


def prepare(cx, entries, cwd):
    s = mar.shared_session()
    root = os.path.join(cx.scratch, 'home', 'tree')
    os.chdir(cx.scratch)
    trees.build(root, entries)
    here = os.path.join(root, cwd) if cwd else root
    os.chdir(here)
    s.env.dir_state().change_current_dir(pathlib.Path(here))
    return s, root, here


@check('ls', cases, quick=2400, thorough=60000, shards=(6, 8), rule='at least three items')
def ls(case, cx):
    entries, cwd, args, depth, types = case
    s, root, here = prepare(cx, entries, cwd)
    try:
        texts, selected = trees.argument_texts(s, root, here, args)
        command = ' '.join(x for x in ['ls', depth, types] + texts if x)
        r = s.eval(command)
        what = f'{command} in {cwd or "."} of {entries}, with {args}'
        if args and not selected:
            cx.label('nothing')
            cx.true(r.killed is not None and not r.out, f'{what}: should be rejected: {r}')
            return
        roots = sorted({pathlib.Path(x) for x in selected}) if args else [pathlib.Path(here)]
        include = types[1:] or 'fds'
        expected = reference(roots, {'': '1', '-0': '0', '-1': '1', '-r': 'r', '--recursive': 'r'}[depth], include)
        cx.true(r.killed is None, f'{what}: {r}')
        cx.nontrivial(len(expected) > 2)
        cx.label(depth)
        compare(cx, what, r.out, expected)
    finally:
        os.chdir(cx.scratch)
        trees.clear(root)


def compare(cx, what, out, expected):
    actual = []
    for x in out:
        if mar.is_error(x):
            actual.append(x)
        else:
            cx.true(len(x) == 1 and type(x[0]).__name__ == 'File', f'{what}: {x}')
            actual.append(str(x[0].path))
    good = [x for x in actual if not mar.is_error(x)]
    cx.eq(good, [x for x in expected if type(x) is str], what)
    # Whether a link that cannot be followed gives an error is not specified.
    expected = list(expected)
    k = 0
    while k < len(expected):
        if expected[k][0] == '#maybe':
            if k < len(actual) and mar.is_error(actual[k]) and os.path.basename(expected[k][1]) in actual[k][1]:
                expected[k] = ('#error', expected[k][1])
            else:
                del expected[k]
                continue
        k += 1
    a = [x if type(x) is str else '#error' for x in actual]
    e = [x if type(x) is str else '#error' for x in expected]
    cx.eq(a, e, f'{what}: position of errors')
    for x, y in zip(actual, expected):
        if mar.is_error(x):
            cx.true(os.path.basename(y[1]) in x[1], f'{what}: expected an error for {y[1]}, got {x[1]}')
            cx.label('error')
