"""Driving marcel: an in-process session (the marcel language), and the Python API."""
import contextlib
import io
import os
import shutil
import sys

from harness.core import HarnessError, Violation

DEFAULT_CONFIG = None


class Result(object):
    """Outcome of one marcel command.

    out:    list of output items: tuples/lists as they reach the end of the pipeline; Errors as ('#error', message)
    killed: None, or the message of the error that killed the command
    """

    def __init__(self):
        self.out = []
        self.killed = None
        self.exc = None
        self.stdout = ''
        self.stderr = ''

    def __repr__(self):
        return f'Result(out={self.out!r}, killed={self.killed!r}, stderr={self.stderr!r})'

    @property
    def values(self):
        return [x for x in self.out if not is_error(x)]

    @property
    def errors(self):
        return [x for x in self.out if is_error(x)]


ERROR = '#error'


def is_error(x):
    return type(x) is tuple and len(x) == 2 and isinstance(x[0], str) and x[0] == ERROR


def plain(x):
    import marcel.object.error
    if type(x) is marcel.object.error.Error:
        return ERROR, x.message
    return x


class Session(object):
    """A marcel session, as in a script: a home directory with a marcel installation, and an open workspace."""

    def __init__(self, home=None, interactive=False, config='', reset=True):
        import marcel.persistence.storagelayout
        import marcel.object.workspace
        self.home = home or os.environ['HOME']
        if reset:
            reset_home(self.home)
        os.environ['HOME'] = self.home
        marcel.object.workspace.Workspace.DEFAULT = None
        self.interactive = interactive
        self.main = None
        self.env = None
        marcel.persistence.storagelayout.ensure_current(testing=True, initial_config=config)
        self.open(marcel.object.workspace.Workspace.default())

    def open(self, workspace, trace=None):
        import marcel.env
        import marcel.main
        if self.interactive:
            self.env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
            self.main = marcel.main.MainInteractive(old_main=self.main, env=self.env, testing=True)
        else:
            self.env = marcel.env.Environment.create(workspace=workspace, trace=trace)
            self.main = marcel.main.MainScript(self.env)
        self.env.enforce_var_immutability()

    def close(self, restart=False):
        if self.main is not None:
            self.main.shutdown(restart)
            if not restart:
                self.main = None

    def switch(self, text):
        """Run a command that opens another workspace, as marcel's main loop does. Returns (stdout, stderr), and
        True iff another workspace was opened."""
        import marcel.exception
        out, err = io.StringIO(), io.StringIO()
        switched = False
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                self.main.parse_and_run_command(text)
            except marcel.exception.ReconfigureException as e:
                switched = True
                trace = self.env.trace
                self.main.shutdown(restart=True)
                self.open(e.workspace_to_open, trace)
        return out.getvalue(), err.getvalue(), switched

    def restart(self):
        """End this session and start another one in the same home directory. Returns what was written to stdout and stderr."""
        import marcel.object.workspace
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            self.main.shutdown()
            marcel.object.workspace.Workspace.DEFAULT = None
            self.open(marcel.object.workspace.Workspace.default())
        return out.getvalue()

    def set(self, var, value):
        self.env.setvar(var, value)

    def get(self, var):
        return self.env.getvar(var)

    def eval(self, text):
        """Parse and run the text. Collect the items that reach the end of the pipeline, instead of printing them."""
        import marcel.core
        import marcel.exception
        import marcel.parser
        import marcel.util
        from marcel.op.gather import Gather
        result = Result()
        env = self.env
        out, err = io.StringIO(), io.StringIO()
        depth = env.vars().n_scopes()
        gathered = []
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                env.workspace.namespace.set_env(env)
                pipeline = marcel.parser.Parser(text, env).parse()
                pipeline.append(Gather(gathered, False, None))
                marcel.core.Command(text, pipeline).execute(env)
            except marcel.parser.EmptyCommand:
                pass
            except marcel.exception.KillCommandException as e:
                result.killed = str(e) or type(e).__name__
                result.exc = e
            except marcel.exception.KillAndResumeException as e:
                result.killed = 'KillAndResume: ' + str(e)
                result.exc = e
        if env.vars().n_scopes() != depth:
            raise Violation(f'{text}: pipeline parameters are still bound after the command')
        result.raw = gathered
        result.out = [plain(x) for x in gathered]
        result.stdout = out.getvalue()
        result.stderr = err.getvalue()
        return result

    def command(self, text):
        """Run the text exactly as marcel's main does, rendering output. Returns (stdout, stderr)."""
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            self.main.parse_and_run_command(text)
        return out.getvalue(), err.getvalue()


def reset_home(home):
    if not home.startswith('/tmp/verif_'):
        raise HarnessError(f'refusing to clear {home}')
    for entry in os.listdir(home):
        path = os.path.join(home, entry)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)


_SESSION = None


def shared_session(**kwargs):
    """One session for all cases of a worker, for checks of stateless commands."""
    global _SESSION
    if _SESSION is None:
        _SESSION = Session(**kwargs)
    return _SESSION


_API_SESSION = None


def api_session():
    """The API keeps its own environment, which has to exist before a session in the same process."""
    global _API_SESSION
    if _API_SESSION is None:
        import marcel.api
        Session()
        marcel.api.gather(marcel.api.gen(1))
        _API_SESSION = Session(reset=False)
    return _API_SESSION
