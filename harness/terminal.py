"""Interactive marcel sessions: `python -m marcel.main`, started with a pseudo-terminal, as a user does."""
import errno
import os
import pty
import re
import select
import signal
import sys
import termios
import time

from harness.core import HarnessError, Violation, short

PROMPT = '<ready>'
CODES = re.compile(r'\x1b\[[0-9;?]*[a-zA-Z]')
STARTUP = f"PROMPT = ['{PROMPT}']\nPROMPT_CONTINUATION = ['<more>']\n"


def new_home(home, startup=STARTUP):
    """marcel's files, as created when marcel is run for the first time."""
    import marcel.object.workspace
    import marcel.persistence.storagelayout
    os.makedirs(home, exist_ok=True)
    marcel.object.workspace.Workspace.DEFAULT = None
    before = os.environ['HOME']
    os.environ['HOME'] = home
    try:
        marcel.persistence.storagelayout.ensure_current(testing=True, initial_config=startup)
    finally:
        os.environ['HOME'] = before


class TtySession(object):

    def __init__(self, home, cwd=None, env=None, prompt=None, login=False):
        """A session of a user with the given home directory. prompt is what the prompt ends with.
        login: marcel is the login shell. Otherwise, it is started from another shell, in a process group of its own."""
        import marcel
        self.prompt = (prompt or PROMPT).encode()
        self.fd = None
        repo = os.path.dirname(os.path.dirname(os.path.abspath(marcel.__file__)))
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                self.child(home, cwd, env, repo, login)
            finally:
                os._exit(127)
        self.buffer = b''
        self.ended = False
        try:
            self.startup_output = self.until_prompt(60)
        except BaseException:
            self.close()
            raise

    @staticmethod
    def child(home, cwd, env, repo, login):
        signal.setitimer(signal.ITIMER_REAL, 0)
        for s in (signal.SIGALRM, signal.SIGINT, signal.SIGTSTP, signal.SIGTERM, signal.SIGCHLD):
            signal.signal(s, signal.SIG_DFL)
        environ = {k: v for k, v in os.environ.items() if not k.startswith('MARCEL')}
        environ.update(HOME=home, PYTHONPATH=repo, TERM='dumb', PYTHONDONTWRITEBYTECODE='1', COLUMNS='500', LINES='50')
        environ.update(env or {})
        os.chdir(cwd or home)
        # prompt_toolkit does the echo. (Text typed before it has started to read would appear twice.)
        mode = termios.tcgetattr(0)
        mode[3] &= ~termios.ECHO
        termios.tcsetattr(0, termios.TCSANOW, mode)
        if not login:
            signal.signal(signal.SIGTTOU, signal.SIG_IGN)
            pid = os.fork()
            if pid:
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                for s in (signal.SIGINT, signal.SIGTSTP):
                    signal.signal(s, signal.SIG_IGN)
                status = os.waitpid(pid, 0)[1]
                os._exit(os.waitstatus_to_exitcode(status) & 255)
            os.setpgid(0, 0)
            os.tcsetpgrp(0, os.getpid())
            signal.signal(signal.SIGTTOU, signal.SIG_DFL)
        os.execve(sys.executable, [sys.executable, '-m', 'marcel.main'], environ)

    def read(self, timeout):
        """Adds what is there to the buffer. Returns False if nothing has come for timeout seconds, or the session has ended"""
        r, _, _ = select.select([self.fd], [], [], max(0, timeout))
        if not r:
            return False
        try:
            x = os.read(self.fd, 65536)
        except OSError as e:
            if e.errno != errno.EIO:
                raise
            x = b''
        if not x:
            self.ended = True
            return False
        self.buffer += x
        return True

    def until_prompt(self, timeout=30):
        end = time.monotonic() + timeout
        while True:
            at = self.buffer.find(self.prompt)
            if at >= 0:
                out, self.buffer = self.buffer[:at], self.buffer[at + len(self.prompt):]
                return self.text(out)
            if self.ended:
                raise Violation(f'the session ended: {short(self.text(self.buffer), 600)}')
            if time.monotonic() > end:
                raise Violation(f'no prompt within {timeout} seconds; output so far: {short(self.text(self.buffer), 600)}')
            self.read(0.5)

    def prompted(self, timeout):
        """Has a prompt arrived?"""
        end = time.monotonic() + timeout
        while self.prompt not in self.buffer and time.monotonic() < end:
            self.read(0.05)
        if self.prompt not in self.buffer:
            return False
        self.until_prompt(0)
        while self.read(0.2):   # There may have been several
            pass
        self.buffer = b''
        return True

    @staticmethod
    def text(b):
        return CODES.sub('', b.decode('utf8', 'replace')).replace('\r', '')

    def type(self, text):
        b = text.encode() if isinstance(text, str) else text
        while b:
            b = b[os.write(self.fd, b):]

    def wait_for_echo(self, timeout=10):
        """Until the line editor has accepted the line typed."""
        end = time.monotonic() + timeout
        while b'\n' not in self.buffer and time.monotonic() < end and not self.ended:
            self.read(0.5)

    def wait_for(self, text, timeout=30):
        """Until the output of the running command contains the text. (The echo of the command doesn't count.)"""
        end = time.monotonic() + timeout
        while text not in self.text(self.buffer).partition('\n')[2]:
            if self.ended or time.monotonic() > end:
                raise Violation(f'no {text!r} in the output: {short(self.text(self.buffer), 600)}')
            self.read(0.5)

    def command(self, text, timeout=30):
        """Returns the output of the command."""
        self.type(text + '\r')
        return self.result(timeout)

    def result(self, timeout=30):
        return self.until_prompt(timeout).partition('\n')[2]

    def close(self):
        """Ends the session. Returns the remaining output."""
        if self.pid is None:
            return ''
        out = ''
        try:
            if not self.ended:
                end = time.monotonic() + 20
                while not self.ended and time.monotonic() < end:
                    # Has no effect until the line editor runs.
                    self.type(b'\x04')
                    again = time.monotonic() + 2
                    while not self.ended and time.monotonic() < again:
                        self.read(0.5)
            out = self.text(self.buffer)
        except OSError:
            pass
        self.kill()
        return out

    def kill(self):
        if self.pid is not None:
            end = time.monotonic() + 3
            while time.monotonic() < end:
                pid, _ = os.waitpid(self.pid, os.WNOHANG)
                if pid:
                    break
                time.sleep(0.02)
            else:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            self.pid = None
            os.close(self.fd)
