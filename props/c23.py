"""C23: upgrading any older storage layout preserves the user's configuration and data."""
import os
import re
import shutil

import hypothesis.strategies as st

from harness import mar, procs
from harness.core import check

LAYOUTS = ['fresh', 'original', 'xdg', 'ws1', 'ws2', 'ws3', 'pt']
OLD_HISTORY = ['gen 3\nls -l\n', '_HiStOrY_V2_\ngen\\0403\n', '\n', 'é (x: x)\n', '+1\n+2\n']
PT_HISTORY = '\n# 2025-04-02 16:54:22.895547\n+gen 3\n\n# 2025-04-02 16:55:22.895547\n+{0}\n+ | (x: x)\n'

names = st.sampled_from(['w1', 'w2', 'workspace', 'broken', 'é x', 'startup', 'default', 'marcel'])
histories = st.one_of(st.sampled_from(OLD_HISTORY), st.just(PT_HISTORY), st.just(''))
workspace = st.tuples(st.integers(0, 50), histories, st.booleans())  # value of variables, history, home property missing

cases = st.fixed_dictionaries({
    'layout': st.sampled_from(LAYOUTS),
    'config': st.integers(0, 99),
    'history': st.sampled_from(OLD_HISTORY + [PT_HISTORY, PT_HISTORY]),
    'workspaces': st.dictionaries(names, workspace, max_size=3),
    'version': st.sampled_from([None, '0.9.0', '0.9.12\n', '0.13.6', '0.20.0', '0.28.1\n', '0.37.2', '', 'x']),
    'xdg': st.sampled_from([None, None, ('cfg', 'data'), ('same', 'same'), ('~/a b/c', None), (None, 'd')]),
    'missing': st.sampled_from([None, None, None, 'history', 'startup', 'both']),
    'quarantined': st.booleans()})


def configuration(n):
    return f'# é\nCFG = {n}\n\ndef cfgf(x):\n    return x + CFG\n\nfrom math import floor\n'


def files_of_workspace(cx, value):
    """The files of the data directory of a workspace: path -> content"""
    cached = os.path.join(cx.scratch, f'workspace{value % 7}')
    if not os.path.exists(cached):
        home = os.path.join(cx.scratch, 'home')
        mar.reset_home(home)
        n = value % 7
        p = procs.MarcelProcess(home, ['ws -n w', f'a = ({n})', f'f = (x: x + {n})', f'gen {n + 1} >$ r', f'p = (| gen {n + 1} |)', 'ws -c'])
        outs = p.finish()
        cx.eq(p.ended, 'end', f'{outs}')
        shutil.copytree(os.path.join(home, '.local/share/marcel/workspace/w'), cached)
    return cached


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def remove_home_property(path):
    import dill
    with open(path, 'rb') as f:
        properties = dill.load(f)
    properties.pop('home', None)
    with open(path, 'wb') as f:
        dill.dump(properties, f)


def marker(dir):
    path = os.path.join(dir, '.WORKSPACE')
    write(path, '')
    os.chmod(path, 0)


def tree(*roots):
    files = {}
    for root in roots:
        for d, dirs, names in os.walk(root):
            if not dirs and not names:
                files[d] = None
            for name in names:
                if not re.match('[0-9]+[.]', name) and not name.startswith('script'):
                    path = os.path.join(d, name)
                    files[path] = '' if name.startswith('.WORKSPACE') else open(path, 'rb').read()
    return files


@check('upgrade', lambda: cases, quick=500, thorough=20000, shards=(7, 8), timeout=120,
       rule='an installation in an old layout, or a layout with workspaces')
def upgrade(case, cx):
    home = os.path.join(cx.scratch, 'home')
    sources = {w: files_of_workspace(cx, value) for w, (value, _, _) in case['workspaces'].items()}
    mar.reset_home(home)
    os.chdir(os.path.join(cx.scratch, 'work'))
    layout = case['layout']
    cx.label(layout)
    xdg = case['xdg'] or (None, None)
    environment = {}
    bases = []
    for variable, value, default in (('XDG_CONFIG_HOME', xdg[0], '.config'), ('XDG_DATA_HOME', xdg[1], '.local/share')):
        if value is None:
            base = os.path.join(home, default)
        else:
            base = os.path.join(home, value.removeprefix('~/'))
            environment[variable] = value if value.startswith('~') else base
        bases.append(os.path.join(base, 'marcel'))
    config, data = bases
    same = config == data
    if same:
        # Configuration and data in one directory isn't possible with most layouts.
        cx.exclude('the same directory for configuration and data')
        return
    startup = configuration(case['config'])
    workspaces = dict(case['workspaces']) if layout in ('ws1', 'ws2', 'ws3', 'pt') else {}
    if layout == 'ws1':
        # Directory names of that layout can't be workspaces
        workspaces.pop('startup', None)
    missing = case['missing'] if layout in ('xdg', 'ws1') else None
    # Where things are
    if layout == 'original':
        write(os.path.join(home, '.marcel.py'), startup)
        write(os.path.join(home, '.marcel_history'), case['history'])
    elif layout != 'fresh':
        default = {'xdg': '', 'ws1': '', 'ws2': '__DEFAULT_WORKSPACE__', 'ws3': 'workspace/__DEFAULT__', 'pt': 'workspace/__DEFAULT__'}[layout]
        os.makedirs(os.path.join(config, default))
        os.makedirs(os.path.join(data, default))
        if missing not in ('startup', 'both'):
            write(os.path.join(config, default, 'startup.py'), startup)
        history = PT_HISTORY if layout == 'pt' else OLD_HISTORY[0] if layout == 'ws3' and case['history'] == PT_HISTORY else case['history']
        if missing not in ('history', 'both'):
            write(os.path.join(data, default, 'history'), history)
        if layout != 'xdg':
            marker(os.path.join(config, default))
            os.makedirs(os.path.join(data, default, 'reservoirs'))
        if layout in ('ws3', 'pt'):
            os.makedirs(os.path.join(config, 'broken'))
            os.makedirs(os.path.join(data, 'broken'))
            if case['quarantined']:
                write(os.path.join(config, 'broken', '17.5', 'b', 'startup.py'), 'x = 1')
        for w, (n, history, homeless) in workspaces.items():
            base = 'workspace' if layout in ('ws3', 'pt') else ''
            write(os.path.join(config, base, w, 'startup.py'), configuration(n))
            marker(os.path.join(config, base, w))
            shutil.copytree(sources[w], os.path.join(data, base, w))
            write(os.path.join(data, base, w, 'history'), history)
            if homeless:
                remove_home_property(os.path.join(data, base, w, 'properties.pickle'))
        if case['version'] is not None:
            write(os.path.join(config, 'VERSION'), case['version'])
    cx.nontrivial(layout not in ('fresh', 'pt') or workspaces)
    quarantined = tree(os.path.join(config, 'broken'), os.path.join(data, 'broken')) if layout in ('ws3', 'pt') else {}

    # The first start
    p = procs.MarcelProcess(home, ['ws -l'], env=environment)
    cx.eq(p.startup, '', f'{case}: output of startup')
    outs = p.finish()
    cx.eq((p.ended, outs[-1]), ('end', ''), f'{case}: {outs}')
    cx.eq(outs[0].splitlines(), [f'Workspace({w})' for w in sorted([''] + list(workspaces))], f'{case}: workspaces')
    with open(os.path.join(config, 'VERSION')) as f:
        import marcel.version
        cx.eq(f.read().strip(), marcel.version.VERSION, f'{case}: VERSION')
    first = tree(config, data)
    default = os.path.join(config, 'workspace', '__DEFAULT__')
    if layout != 'fresh' and missing not in ('startup', 'both'):
        cx.eq(first.get(os.path.join(default, 'startup.py')), startup.encode(), f'{case}: startup script')
    for w, (n, history, _) in workspaces.items():
        cx.eq(first.get(os.path.join(config, 'workspace', w, 'startup.py')), configuration(n).encode(), f'{case}: startup script of {w}')
        if history == PT_HISTORY or layout == 'pt':
            cx.eq(first.get(os.path.join(data, 'workspace', w, 'history')), history.encode(), f'{case}: history of {w}')
        cx.eq(first.get(os.path.join(data, 'workspace', w, 'reservoirs', 'r.pickle')), open(os.path.join(sources[w], 'reservoirs', 'r.pickle'), 'rb').read(), f'{case}: reservoir of {w}')
    if layout == 'pt':
        cx.eq(first.get(os.path.join(data, 'workspace', '__DEFAULT__', 'history')), PT_HISTORY.encode(), f'{case}: history')
    cx.eq({path: content for path, content in first.items() if path in quarantined}, quarantined, f'{case}: quarantined files')
    cx.eq({path: content for path, content in first.items() if '/broken/' in path and '/workspace/' not in path and path not in quarantined}, {}, f'{case}: quarantined files')

    # Starting again changes nothing
    p = procs.MarcelProcess(home, ['gen 1 | write --quiet'], env=environment)
    cx.eq(p.startup, '', f'{case}: output of the second startup')
    p.finish()
    cx.eq(p.ended, 'end', f'{case}')
    cx.eq(tree(config, data), first, f'{case}: files after the second startup')

    # Everything can be used
    commands, expected = [], []
    if layout == 'fresh' or missing in ('startup', 'both'):
        commands += ['map (5)']
        expected += ['5']
    else:
        commands += ['map ([CFG, cfgf(1), floor(2.5)])']
        expected += [f'[{case["config"]}, {case["config"] + 1}, 2]']
    for w, (value, _, _) in workspaces.items():
        n = value % 7
        commands += [f"ws '{w}'", 'map ([a, f(10), CFG, cfgf(1)])', 'p | red count']
        expected += [f'Workspace({w})', f'[{n}, {10 + n}, {value}, {value + 1}]', f'{n + 1}']
    commands += ['ws -n new', 'a = (1)', 'ws -c', 'ws new', 'map (a)', 'ws -c']
    expected += ['Workspace(new)', '', 'Workspace()', 'Workspace(new)', '1', 'Workspace()']
    p = procs.MarcelProcess(home, commands, env=environment)
    outs = [out.rstrip('\n') for out in p.finish()]
    cx.eq(outs, expected + [''], f'{case}: {commands}')
    cx.eq(p.ended, 'end', f'{case}')
