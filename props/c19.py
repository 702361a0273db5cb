"""C19: cd, pushd, popd, dirs, pwd follow the model of a directory stack."""
import os

import hypothesis.strategies as st

from harness import mar, trees
from harness.core import check

NAMES = ['a', 'b', 'c', 'd', 'ab', '.h', 'a b', '[a]', '*', 'é', "it's", '~', '-f']


@st.composite
def cases(draw):
    entries = draw(trees.trees(NAMES, special=False))
    dirs = [p for p, k, d in entries if k == 'dir'] or ['a']
    steps = []
    for _ in range(draw(st.sampled_from([3, 6, 10, 15]))):
        action = draw(st.sampled_from(['cd', 'cd', 'pushd', 'pushd', 'pushd', 'popd', 'popd', 'dirs', 'dirs -c', 'pwd', 'fault', 'exec']))
        if action in ('cd', 'pushd'):
            kind = draw(st.sampled_from(['none', 'dir', 'dir', 'dir', 'arg']))
            if kind == 'none':
                steps.append((action, None))
            elif kind == 'dir':
                steps.append((action, (draw(st.sampled_from('qpF')), draw(st.sampled_from(['rel', 'abs', 'home'])),
                                       draw(st.sampled_from(dirs + ['']))), True))
            else:
                steps.append((action, draw(trees.arguments(entries, draw(st.sampled_from(dirs)), sizes=(1,)))[0], False))
        elif action == 'fault':
            steps.append((action, draw(st.sampled_from(['remove', 'remove', 'create', 'create', 'lock', 'unlock', 'file'])),
                          draw(st.sampled_from(dirs))))
        else:
            steps.append((action,))
    return entries, steps, draw(st.booleans())


class Model(object):

    def __init__(self, pwd):
        self.pwd = pwd
        self.stack = [pwd]   # Top last

    def clean(self):
        """Drop directories that disappeared. Returns True if there were any"""
        stack = [d for d in self.stack if os.path.isdir(d) and os.access(d, os.X_OK)]
        dropped = len(stack) < len(self.stack)
        self.stack = stack
        return dropped

    def pushed(self):
        """Is the current directory still on the stack?"""
        return bool(self.stack) and self.stack[-1] == self.pwd

    def go(self, path, stack):
        self.pwd = path
        self.stack = stack


def enterable(path):
    """The real path of the directory, if it can be the current one."""
    try:
        if os.path.isdir(path) and os.access(path, os.X_OK):
            return os.path.realpath(path)
    except OSError:
        pass
    return None


def fault(root, what, path):
    path = os.path.join(root, path)
    parent = os.path.dirname(path)
    try:
        if what == 'remove':
            trees.clear(path)
        elif what in ('create', 'file'):
            if what == 'file':
                trees.clear(path)
            if not os.path.lexists(path) and os.path.isdir(parent):
                if what == 'create':
                    os.mkdir(path)
                else:
                    open(path, 'w').close()
                    os.chmod(path, 0o755)
        elif not os.path.islink(path) and os.path.isdir(path):
            os.chmod(path, 0o000 if what == 'lock' else 0o755)
    except OSError:
        pass


@check('history', cases, quick=1600, thorough=50000, shards=(6, 8), rule='two directories on the stack, and a removed one or a failing command')
def history(case, cx):
    entries, steps, by_pipeline = case
    s = mar.shared_session()
    home = os.path.join(cx.scratch, 'home')
    root = os.path.join(home, 'tree')
    os.chdir(cx.scratch)
    trees.build(root, entries)
    os.chdir(root)
    s.env.dir_state().change_current_dir(root)
    s.env.dir_state().reset_dir_stack()
    model = Model(root)
    deep = failed = False
    try:
        if by_pipeline:
            s.command('go = (| x: cd (x) |)')
            s.command('push = (| x: pushd (x) |)')
        for i, step in enumerate(steps):
            action = step[0]
            what = f'step {i}, {step}, of {steps} in {entries}'
            if action == 'fault':
                fault(root, *step[1:])
                continue
            dropped = model.clean()
            failed |= dropped
            before = model.pwd, model.stack
            target = None
            text = action
            fails = False
            if action in ('cd', 'pushd') and step[1] is not None:
                (kind, form, path), of_root = step[1:]
                if of_root:
                    path = os.path.relpath(os.path.join(root, path), model.pwd)
                texts, selected = trees.argument_texts(s, root, model.pwd, [(kind, form, path)])
                if by_pipeline and kind in 'vpF':
                    text = {'cd': 'go', 'pushd': 'push'}[action] + ' ' + texts[0]
                else:
                    text = f'{action} {texts[0]}'
                target = enterable(selected[0]) if len(set(selected)) == 1 else None
                fails = target is None
            elif action == 'cd':
                target = home
            elif action == 'exec':
                text = "run = 1"
            if action == 'cd' and target:
                model.go(target, model.stack[:-1] + [target] if model.pushed() else model.stack + [target])
            elif action == 'pushd' and target:
                model.go(target, model.stack + [target])
            elif action == 'pushd' and not fails and model.stack:
                # Without an argument: swap.
                stack = model.stack[:-2] + [model.stack[-1], model.stack[-2]] if len(model.stack) > 1 else model.stack
                model.go(stack[-1], stack)
            elif action == 'popd' and model.stack:
                if not model.pushed():
                    model.go(model.stack[-1], model.stack)
                elif len(model.stack) > 1:
                    model.go(model.stack[-2], model.stack[:-1])
            elif action == 'dirs -c':
                model.stack = [model.pwd]
                if model.clean():
                    model.stack = []
            cx.label(action + (' fails' if fails else ''))
            what += f': {text}'
            if action == 'exec':
                check_executable(cx, s, model, what)
                continue
            r = s.eval(text)
            what += f': {r}'
            failed |= fails
            if fails:
                cx.true(r.killed is not None, f'{what}: expected an error')
                cx.eq(r.values, [], what)
            else:
                cx.true(r.killed is None and not r.errors, f'{what}: unexpected error')
                if action == 'pwd':
                    expected = [model.pwd]
                elif action == 'cd':
                    expected = []
                else:
                    expected = list(reversed(model.stack))
                cx.eq([str(x[0].path) for x in r.values], expected, what)
            if dropped:
                cx.true('no longer accessible' in r.stderr, f'{what}: no message about the dropped directories')
            check_state(cx, s, model, what)
            deep |= len(model.stack) > 1
        cx.nontrivial(deep and failed)
    finally:
        os.chdir(cx.scratch)
        s.env.dir_state().change_current_dir(cx.scratch)
        s.env.dir_state().reset_dir_stack()
        trees.clear(root)


def check_state(cx, s, model, what):
    cx.eq(s.get('PWD'), model.pwd, f'{what}: PWD')
    cx.eq([str(d) for d in s.get('DIRS')], model.stack, f'{what}: DIRS')
    if os.path.isdir(model.pwd) and os.access(model.pwd, os.X_OK):
        st1, st2 = os.stat('.'), os.stat(model.pwd)
        cx.true(os.path.samestat(st1, st2) or not os.path.exists('.'), f'{what}: the process is in {os.getcwd()}, not {model.pwd}')


def check_executable(cx, s, model, what):
    """A relative name means the same to operators, to executables, and to redirection."""
    if not (os.path.isdir(model.pwd) and os.access(model.pwd, os.X_OK | os.W_OK)):
        return
    name = 'MARK'
    path = os.path.join(model.pwd, name)
    if os.path.lexists(path):
        return
    try:
        s.command(f'map (5) > {name}')
        if os.path.samestat(os.stat('.'), os.stat(model.pwd)):
            cx.true(os.path.isfile(path), f'{what}: redirection wrote elsewhere')
            r = s.eval(f'ls -0 {name}')
            cx.eq([str(x[0].path) for x in r.values], [path], what)
    finally:
        if os.path.lexists(path):
            os.unlink(path)
