"""marcel processes: real sessions, started as by `marcel SCRIPT`, which run one command at a time under control of a check.

The process is forked, so that marcel's modules don't have to be imported again. The commands of the session are known
in advance. The script alternates between these commands and a function that reports the output so far, and waits.
"""
import atexit
import builtins
import io
import json
import os
import select
import signal
import sys
import time
import traceback

from harness.core import HarnessError, Violation

MODIFICATIONS = {'open', 'os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'shutil.move'}
def copy_home(source, target):
    """Copies marcel's files. (Some have no permissions at all.)"""
    for d, dirs, files in os.walk(source):
        to = os.path.join(target, os.path.relpath(d, source))
        os.makedirs(to, exist_ok=True)
        for f in files:
            stat = os.stat(os.path.join(d, f))
            with open(os.path.join(to, f), 'wb') as t:
                if stat.st_size:
                    with open(os.path.join(d, f), 'rb') as s:
                        t.write(s.read())
            os.chmod(os.path.join(to, f), stat.st_mode & 0o777)


WAIT = 'gen 1 | select (lambda i: __verif_turn__())'


_PRELOADED = False


def preload():
    """Imports modules once, instead of once per session. (Operators' modules are imported on first use.)"""
    global _PRELOADED
    if not _PRELOADED:
        import marcel.main
        import marcel.op
        import pkgutil
        import importlib
        for m in pkgutil.iter_modules(marcel.op.__path__, 'marcel.op.'):
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
        _PRELOADED = True


class MarcelProcess(object):

    def __init__(self, home, commands, cwd=None, env=None, points=False, ppid=None):
        """Starts marcel. Returns when it is about to run the first command, or has ended before.
        points: the process also stops before each modification of marcel's files, see advance().
        ppid: pretend that this is the parent process."""
        preload()
        self.points = points
        self.ppid = ppid
        self.commands = list(commands)
        self.script = os.path.join(os.path.dirname(home.rstrip('/')), f'script{time.monotonic_ns()}')
        with open(self.script, 'w') as f:
            f.write(WAIT + '\n')
            for c in self.commands:
                assert '\n' not in c and c.strip()
                f.write(c + '\n' + WAIT + '\n')
        from_child, self.to_parent = os.pipe()
        self.from_parent, to_child = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(from_child)
            os.close(to_child)
            self.child(home, cwd, env)
        os.close(self.to_parent)
        os.close(self.from_parent)
        self.input, self.output = from_child, to_child
        self.buffer = b''
        self.ended = None   # None while running, then a description of how it ended
        self.at = None
        self.startup = '' if points else self.read()

    # In the child

    def child(self, home, cwd, env):
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            atexit._clear()
            os.environ['HOME'] = home
            os.environ.update(env or {})
            if cwd:
                os.chdir(cwd)
            null = os.open('/dev/null', os.O_RDONLY)
            os.dup2(null, 0)
            sys.stdin = open(0, closefd=False)
            sys.argv = ['marcel', self.script]
            out = sys.stdout = sys.stderr = sys.__stdout__ = sys.__stderr__ = io.StringIO()

            def take():
                text = out.getvalue()
                out.seek(0)
                out.truncate()
                return text

            def turn():
                self.send(dict(out=take()))
                if not os.read(self.from_parent, 1):
                    os._exit(1)
                return False

            builtins.__verif_turn__ = turn
            if self.ppid:
                os.getppid = lambda: self.ppid
            if self.points:
                self.stop_at_modifications(home)
            import marcel.exception
            import marcel.main
            import marcel.object.workspace
            marcel.object.workspace.Workspace.DEFAULT = None
            end = 'end'
            try:
                marcel.main.main()
            except (marcel.exception.KillShellException, marcel.exception.KillCommandException) as e:
                end = 'killed'
                print(str(e))
            except SystemExit:
                end = 'exit'
            except BaseException:
                end = 'exception'
                traceback.print_exc()
            atexit._run_exitfuncs()
            self.send(dict(out=take(), end=end))
        except BaseException:
            self.send(dict(out=traceback.format_exc(), end='harness'))
        finally:
            os._exit(0)

    def stop_at_modifications(self, home):
        inside = False

        def hook(event, args):
            nonlocal inside
            if inside or event not in MODIFICATIONS:
                return
            path = args[0]
            if isinstance(path, int) or event == 'open' and not args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
            inside = True
            try:
                path = os.path.abspath(os.fsdecode(path))
                if path.startswith(home) and '/marcel' in path:
                    self.send(dict(at=[event, path[len(home):]]))
                    go = os.read(self.from_parent, 1)
                    if go == b'k':
                        # Killed right after a file was opened for writing
                        if event == 'open' and args[2] & os.O_CREAT:
                            os.close(os.open(path, args[2], 0o600))
                        os._exit(1)
                    if not go:
                        os._exit(1)
            finally:
                inside = False

        sys.addaudithook(hook)

    def send(self, x):
        data = json.dumps(x).encode() + b'\n'
        while data:
            data = data[os.write(self.to_parent, data):]

    # In the parent

    def read(self):
        deadline = time.time() + 50
        while b'\n' not in self.buffer:
            ready, _, _ = select.select([self.input], [], [], max(0.1, deadline - time.time()))
            if time.time() > deadline:
                self.kill()
                raise Violation('marcel hangs')
            data = os.read(self.input, 65536) if ready else None
            if data == b'':
                self.reap('died')
                return ''
            self.buffer += data or b''
        line, _, self.buffer = self.buffer.partition(b'\n')
        x = json.loads(line)
        if 'at' in x:
            self.at = x['at']
            return None
        self.at = None
        if x.get('end') == 'harness':
            self.reap('harness')
            raise HarnessError(x['out'])
        if 'end' in x:
            self.reap(x['end'])
        return x['out']

    def reap(self, how):
        if self.ended is None:
            self.ended = how
            os.waitpid(self.pid, 0)
            os.close(self.input)
            os.close(self.output)
            os.unlink(self.script)

    def step(self):
        """Runs the next command, (or ends the session if there are no more). Returns what was written to stdout and stderr."""
        while (out := self.advance()) is None:
            pass
        return out

    def advance(self):
        """Like step(), but returns None if the process has stopped before a modification, self.at."""
        if self.ended:
            raise HarnessError('the session has ended')
        try:
            os.write(self.output, b'.')
        except BrokenPipeError:
            pass
        return self.read()

    def kill(self):
        if self.ended is None:
            os.kill(self.pid, signal.SIGKILL)
            self.reap('killed by the check')

    def kill_during_open(self):
        """If stopped before opening a file for writing: kill when it has been opened, (and possibly truncated)."""
        os.write(self.output, b'k')
        self.reap('killed by the check')

    def finish(self):
        """Runs all the commands. Returns their outputs, and what was written at the end."""
        outs = []
        while self.ended is None:
            outs.append(self.step())
        return outs
