"""C22: damaged workspaces are quarantined whole and never harm healthy ones."""
import os
import re
import shutil

import hypothesis.strategies as st

from harness import mar, procs
from harness.core import check

CONFIG = '.config/marcel/workspace'
DATA = '.local/share/marcel/workspace'
DEFAULT = '__DEFAULT__'
NAMES = [DEFAULT, 'w1', 'w2', 'w 3']
HISTORY = '\n# 2025-04-02 16:54:22.895547\n+gen 3\n'
CONFIGURATION = 'CFG = 7\n'
GARBAGE = [b'', b'\x00', b'garbage', b'\x80\x04N.', b'\x80\x04]\x94.', None]


def uncolored(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text)


def quoted(name):
    return "'" + name + "'"


def installation(cx):
    """An installation with workspaces, created once, and copied for each case"""
    home = os.path.join(cx.scratch, 'home')
    template = os.path.join(cx.scratch, 'installation')
    mar.reset_home(home)
    if not os.path.exists(template):
        procs.MarcelProcess(home, ['gen 1 | write --quiet']).finish()
        with open(os.path.join(home, CONFIG, DEFAULT, 'startup.py'), 'w') as f:
            f.write(CONFIGURATION)
        commands = []
        for i, w in enumerate(NAMES[1:]):
            commands += [f'ws -n {quoted(w)}', f'a = ({i})', f'f = (x: x + {i})', f'gen {i + 2} >$ r', f'p = (| gen {i + 1} |)']
        p = procs.MarcelProcess(home, commands + ['ws -h /x', 'ws -c'])
        outs = p.finish()
        cx.eq(p.ended, 'end', f'{outs}')
        for w in NAMES[:3]:
            with open(os.path.join(home, DATA, w, 'history'), 'w') as f:
                f.write(HISTORY + f'\n# 2025-04-02 16:54:22.895547\n+{w}\n')
        procs.copy_home(home, template)
    mar.reset_home(home)
    procs.copy_home(template, home)
    return home


def use(i):
    """Commands that use the variables of workspace i, and their output"""
    return ([f'ws {quoted(NAMES[i])}', 'map ([a, f(10), CFG])', 'load r | args (| x: (x) |)', 'p | red count'],
            [None, str([i - 1, 10 + i - 1, 7]), '\n'.join(str(x) for x in range(i + 1)), str(i)])


named = st.sampled_from(NAMES[1:])
anywhere = st.sampled_from(NAMES)
sides = st.sampled_from([CONFIG, DATA])
damages = st.one_of(
    # Must be noticed
    st.tuples(st.just('remove'), anywhere, st.sampled_from([(CONFIG, 'startup.py'), (DATA, 'history'), (DATA, 'reservoirs')])),
    st.tuples(st.just('remove'), named, st.sampled_from([(DATA, 'env.pickle'), (DATA, 'properties.pickle')])),
    st.tuples(st.just('remove'), anywhere, st.sampled_from([(CONFIG, ''), (DATA, '')])),
    st.tuples(st.just('swap'), anywhere, st.sampled_from([(CONFIG, 'startup.py'), (DATA, 'history'), (DATA, 'reservoirs'), (CONFIG, ''), (DATA, '')])),
    st.tuples(st.just('swap'), named, st.sampled_from([(DATA, 'env.pickle'), (DATA, 'properties.pickle')])),
    st.tuples(st.just('extra'), anywhere, st.tuples(sides, st.sampled_from(['x', 'é.txt', 'startup.py~']))),
    st.tuples(st.just('stray'), st.sampled_from(['stray', 's t']), st.tuples(sides, st.sampled_from(['file', 'dir']))),
    # Can't be noticed
    st.tuples(st.just('content'), named, st.tuples(st.sampled_from(['env.pickle', 'properties.pickle']), st.sampled_from(GARBAGE))),
    # Harmless
    st.tuples(st.just('marker'), named, st.sampled_from(['dead', 'missing', 'strange'])),
    st.tuples(st.just('history'), anywhere, st.sampled_from([b'', b'gen 3\nls\n', b'\xff\xfe\x00', b'\n', b'\n# 2', b'\n# 2025-04-02'])),
    st.tuples(st.just('reservoir'), named, st.sampled_from([b'', b'garbage', b'\x80\x04K', None])),
    st.tuples(st.just('abandoned'), st.just(DEFAULT), st.sampled_from(['env', 'reservoir', 'both'])),
    st.tuples(st.just('version'), st.just(''), st.sampled_from(['missing', 'garbage', 'empty'])))


def tree(root):
    """path -> content, for files that should not be changed"""
    files = {}
    for d, dirs, names in os.walk(root):
        for name in names:
            path = os.path.join(d, name)
            if name.startswith('.WORKSPACE') or re.match('[0-9]+[.]', name) and DEFAULT in d:
                continue
            with open(path, 'rb') as f:
                files[os.path.relpath(path, root)] = f.read()
    return files


def under(files, name):
    """The part of the tree that belongs to a workspace"""
    return {path: content for path, content in files.items() if path == name or path.startswith(name + '/')}


def apply(home, damage):
    """Returns (noticed, unreadable): is the damage of a kind that must be noticed at startup, or when opening the workspace?"""
    kind, w, what = damage
    if kind in ('remove', 'swap'):
        side, file = what
        path = os.path.join(home, side, w, file).rstrip('/')
        if not os.path.lexists(path):
            return None
        was_dir = os.path.isdir(path)
        if was_dir:
            shutil.rmtree(path)
        else:
            os.unlink(path)
        if kind == 'swap':
            if was_dir:
                with open(path, 'w') as f:
                    f.write('not a directory')
            else:
                os.mkdir(path)
        return 'noticed'
    if kind in ('extra', 'stray'):
        side, x = what
        path = os.path.join(home, side, w)
        if kind == 'extra':
            if not os.path.isdir(path):
                return None
            path = os.path.join(path, x)
        if os.path.lexists(path):
            return None
        if x == 'dir':
            os.mkdir(path)
        else:
            with open(path, 'w') as f:
                f.write('extra')
        return 'noticed'
    if kind in ('content', 'history', 'reservoir'):
        file, content = ('history', what) if kind == 'history' else ('reservoirs/r.pickle', what) if kind == 'reservoir' else what
        path = os.path.join(home, DATA, w, file)
        if not os.path.isfile(path):
            return None
        if content is None:
            with open(path, 'rb') as f:
                content = f.read()
            content = content[:len(content) // 2]
        with open(path, 'wb') as f:
            f.write(content)
        return {'content': 'unreadable', 'history': None, 'reservoir': 'reservoir'}[kind]
    if kind == 'marker':
        dir = os.path.join(home, CONFIG, w)
        marker = os.path.join(dir, '.WORKSPACE')
        if os.path.lexists(marker):
            if what == 'missing':
                os.unlink(marker)
            else:
                os.rename(marker, marker + ('.99999999' if what == 'dead' else '.x'))
        return None
    if kind == 'abandoned':
        for file in {'env': ['99999999.env.pickle'], 'reservoir': ['reservoirs/99999999.x.pickle'],
                     'both': ['99999998.env.pickle', 'reservoirs/99999998.y.pickle', 'reservoirs/99999997.y.pickle']}[what]:
            path = os.path.join(home, DATA, w, file)
            if os.path.isdir(os.path.dirname(path)):
                with open(path, 'wb') as f:
                    f.write(b'')
        return None
    if kind == 'version':
        path = os.path.join(home, '.config/marcel/VERSION')
        if os.path.exists(path):
            os.chmod(path, 0o600)
            os.unlink(path)
        if what != 'missing':
            with open(path, 'w') as f:
                f.write({'garbage': 'x.y\n', 'empty': ''}[what])
        return None


def detected(text):
    match = re.search(r'Damaged workspaces have been detected: (\[.*?\])', text)
    return eval(match.group(1)) if match else []


def check_quarantine(cx, home, before, names, old, message):
    """All that was left of the damaged workspaces is in the broken area, the rest is unchanged"""
    for side in (CONFIG, DATA):
        after = tree(os.path.join(home, side))
        broken = tree(os.path.join(home, os.path.dirname(side), 'broken'))
        def of(files, name):
            return {path: content for path, content in under(files, name).items() if not (name in old and path.endswith('/history'))}

        broken = {path: content for path, content in broken.items() if not (path.endswith('/history') and set(path.split('/')) & old)}
        for name in {path.split('/')[0] for path in before[side]} | {path.split('/')[0] for path in after}:
            if name in names:
                # Under what path is up to marcel
                left = sorted((os.path.basename(path), content) for path, content in of(before[side], name).items())
                found = sorted((os.path.basename(path), content) for path, content in broken.items() if name in path.split('/')[:-1] or path.split('/')[-1] == name)
                cx.eq(found, left, f'{message}: quarantined files of {name} in {side}')
                if name != DEFAULT:
                    cx.eq(under(after, name), {}, f'{message}: remaining files of {name} in {side}')
            else:
                cx.eq(of(after, name), of(before[side], name), f'{message}: files of healthy {name} in {side}')


def check_healthy(cx, home, unhealthy, reservoirs, message, listed=None, startup=''):
    """A session in which every healthy workspace is used"""
    commands, expected = ['ws -l'], [None]
    for i, name in enumerate(NAMES):
        if i and name not in unhealthy:
            c, e = use(i)
            if name in reservoirs:
                e[2] = None
            commands += c
            expected += e
    p = procs.MarcelProcess(home, commands + ['ws -c', 'map (len(str(MARCEL_VERSION)) > 0)'])
    cx.eq(uncolored(p.startup), startup, f'{message}: output of next startup')
    outs = [uncolored(out).rstrip('\n') for out in p.finish()]
    cx.eq(p.ended, 'end', f'{message}: {commands}: {outs}')
    for command, out, e in zip(commands, outs, expected):
        if e is not None:
            cx.eq(out, e, f'{message}: {command} of {commands}, {outs}')
    if listed is not None:
        names = [re.sub(r'^Workspace\((.*?)( @ .*)?\)$', r'\1', line) for line in outs[0].splitlines()]
        cx.eq(names, [''] + sorted(listed), f'{message}: ws -l')
    cx.eq(outs[-2], 'True', f'{message}: default workspace')


@check('damage', lambda: st.lists(damages, min_size=1, max_size=4, unique_by=lambda d: (d[1], d[2] if d[0] in ('remove', 'swap') else d[0])), quick=500, thorough=20000, shards=(7, 8), timeout=120,
       rule='some workspace is damaged, and another one is not')
def damage(case, cx):
    home = installation(cx)
    os.chdir(os.path.join(cx.scratch, 'work'))
    noticed, unreadable, reservoirs = set(), set(), set()
    for d in case:
        result = apply(home, d)
        if result:
            {'noticed': noticed, 'unreadable': unreadable, 'reservoir': reservoirs}[result].add(d[1])
        cx.label(d[0])
    # The last damage may have hidden a former one.
    unreadable -= noticed
    reservoirs -= noticed
    before = {side: tree(os.path.join(home, side)) for side in (CONFIG, DATA)}
    # Old histories may be replaced
    old = {path.split('/')[0] for path, content in before[DATA].items() if path.endswith('/history') and not content.startswith(HISTORY.encode()[:20])}
    # If nothing is left, there's nothing to notice
    gone = {name for name in noticed if name != DEFAULT and not any(os.path.lexists(os.path.join(home, side, name)) for side in (CONFIG, DATA))}
    noticed -= gone
    p = procs.MarcelProcess(home, ['map (1 + 1)'])
    out = uncolored(p.startup)
    cx.true(p.ended is None, f'{case}: marcel can not be started: {out}')
    cx.eq(detected(out), sorted(noticed), f'{case}: damaged workspaces according to {out}')
    cx.true(noticed or out == '', f'{case}: output of startup {out}')
    check_quarantine(cx, home, before, noticed, old, f'{case}')
    cx.eq(p.step(), '2\n', f'{case}')
    cx.eq((p.step(), p.ended), ('', 'end'), f'{case}')
    check_quarantine(cx, home, before, noticed, old, f'{case} (at the end)')
    exist = set(NAMES[1:]) - noticed - gone
    check_healthy(cx, home, noticed | unreadable | gone, reservoirs, f'{case}', exist)
    # A workspace that can't be read isn't opened, and stays as it is.
    for name in sorted(unreadable):
        cx.label('unreadable')
        files = under(tree(os.path.join(home, DATA)), name)
        p = procs.MarcelProcess(home, ['map (5)', f'ws {quoted(name)}', f'ws {quoted(name)}', 'map (6)'])
        outs = [uncolored(out) for out in p.finish()]
        cx.true(p.ended in ('end', 'killed') and 'Traceback' not in ''.join(outs), f'{case}: opening {name}: {p.ended} {outs}')
        cx.true(name in ''.join(outs) and 'damaged' in ''.join(outs), f'{case}: opening {name}: no message: {outs}')
        cx.eq(under(tree(os.path.join(home, DATA)), name), files, f'{case}: files of {name}')
        check_healthy(cx, home, noticed | unreadable | gone, reservoirs, f'{case}', exist)
    default = os.path.join(home, CONFIG, DEFAULT, 'startup.py')
    cx.true(os.path.isfile(default), f'{case}: no startup script')
    cx.nontrivial((noticed or unreadable) and len(noticed | unreadable) < len(NAMES))
    # Broken workspaces are deleted on request, and nothing else is
    before = {side: tree(os.path.join(home, side)) for side in (CONFIG, DATA)}
    p = procs.MarcelProcess(home, ['ws --delete-broken' if len(case) % 2 else 'ws -b', 'ws -b', 'ws -l'])
    outs = [uncolored(out) for out in p.finish()]
    left = {side: tree(os.path.join(home, os.path.dirname(side), 'broken')) for side in (CONFIG, DATA)}
    cx.eq({side: files for side, files in left.items() if files}, {}, f'{case}: left after ws -b: {outs}')
    cx.true(p.ended == 'end' and outs[1] == '' and 'Traceback' not in ''.join(outs), f'{case}: ws -b: {p.ended} {outs}')
    for side in (CONFIG, DATA):
        after = tree(os.path.join(home, side))
        for name in NAMES[1:]:
            cx.eq(under(after, name), under(before[side], name), f'{case}: files of {name} in {side}, after ws -b')


# Crashes

COMMANDS = {
    'start': [],
    'new': ["ws -n 'new'"],
    'delete': ['ws -d w1'],
    'switch': ['ws w1', 'a = (100)', 'ws w2'],
    'close': ['ws w1', 'a = (100)', 'gen 5 >$ s', 'ws -c'],
    'end': ['ws w1', 'a = (100)']}


@check('crashes', lambda: st.tuples(st.sampled_from(['first'] + sorted(COMMANDS)), st.integers(0, 40), st.booleans()), quick=200, thorough=3000,
       shards=(4, 8), timeout=120, rule='marcel is killed before, or while, it modifies its files')
def crashes(case, cx):
    kind, n, during = case
    os.chdir(os.path.join(cx.scratch, 'work'))
    home = installation(cx)
    if kind == 'first':
        mar.reset_home(home)
    cx.label(kind)
    before = {side: tree(os.path.join(home, side)) for side in (CONFIG, DATA)}
    p = procs.MarcelProcess(home, COMMANDS.get(kind, []), points=True)
    try:
        out = p.read()
        points = []
        while not p.ended and n > 0:
            out = p.advance()
            if p.at:
                points.append(p.at)
                n -= 1
        where = f'{kind}, {points}, {"during" if during else "before"} the last'
        cx.nontrivial(not p.ended and bool(points))
        if during and p.at:
            p.kill_during_open()
    finally:
        p.kill()
    touched = {'new': {'new'}, 'delete': {'w1'}, 'switch': {'w1', 'w2'}, 'close': {'w1'}, 'end': {'w1'}}.get(kind, set())
    p = procs.MarcelProcess(home, ['map (1 + 1)', 'ws -l'])
    out = uncolored(p.startup)
    cx.true(p.ended is None, f'{where}: marcel can not be started: {out}')
    broken = detected(out)
    allowed = {DEFAULT} if kind == 'first' else {'new', 'delete'} & {kind} and touched
    cx.true(set(broken) <= set(allowed or []), f'{where}: damaged workspaces according to {out}')
    outs = [uncolored(o).rstrip('\n') for o in p.finish()]
    cx.eq((outs[0], p.ended), ('2', 'end'), f'{where}: {outs}')
    if kind != 'first':
        listed = {re.sub(r'^Workspace\((.*?)( @ .*)?\)$', r'\1', line) for line in outs[1].splitlines()} - {''}
        cx.eq(listed - {'new', 'w1'}, {'w2', 'w 3'}, f'{where}: ws -l')
        cx.true(kind == 'delete' or 'w1' in listed, f'{where}: ws -l: {listed}')
        check_quarantine(cx, home, {side: {path: c for path, c in files.items() if path.split('/')[0] not in touched} for side, files in before.items()},
                         set(), set(), where) if not touched else None
        check_healthy(cx, home, touched, set(), where, listed)
        for w in sorted(touched & listed):
            # Either it can be opened, or there's a message
            p = procs.MarcelProcess(home, [f'ws {w}', 'map (a)', 'ws -c', f'ws -d {w}', 'ws -l'])
            outs = [uncolored(o).rstrip('\n') for o in p.finish()]
            cx.true(p.ended == 'end' or p.ended == 'killed' and 'damaged' in ''.join(outs), f'{where}: {p.ended} {outs}')
            if p.ended == 'end':
                if w != 'new':
                    cx.true(outs[1] in ({'w1': '0', 'w2': '1'}[w], '100'), f'{where}: value of a in {w}: {outs}')
                cx.true(w not in outs[4], f'{where}: {w} has not been deleted: {outs}')
    else:
        p = procs.MarcelProcess(home, ["ws -n 'new'", 'a = (5)', 'ws -c', 'ws new', 'map (a)'])
        outs = [uncolored(o).rstrip('\n') for o in p.finish()]
        cx.eq((p.startup, outs), ('', ['Workspace(new)', '', 'Workspace()', 'Workspace(new)', '5', '']), where)
