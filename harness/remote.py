"""Stand-ins for sudo, ssh and scp, and for the farcel.py script that they run.

A host (or another user) is a home directory. The stand-ins record how they were called, and run the command they are
given with that home directory, or copy files to or from a host's directory. Nothing leaves the scratch directory.

farcel.py is marcel's, run in a process forked from one that has imported marcel's modules.
"""
import array
import atexit
import ctypes
import json
import os
import runpy
import shutil
import signal
import socket
import sys
import threading
import traceback

from harness.core import HarnessError

REPO = os.environ.get('VERIF_REPO', '/repo')

FARCEL = '''#!/opt/venv/bin/python -SEI
import array, json, os, socket, sys
s = socket.socket(socket.AF_UNIX)
s.connect('@LOG@/../s')
s.sendmsg([json.dumps([os.getcwd(), dict(os.environ)]).encode()], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array('i', [0, 1, 2]))])
# Without these, a pipe's other end sees EOF as soon as the process doing the work has ended.
code = s.recv(10)
os._exit(int(code) if code else 99)
'''

RECORD = '''
{ printf '%s\\0' "$0" "$@"; } > @LOG@/$$
'''

SSH = '''#!/bin/sh
''' + RECORD + '''
port=22
while :; do
    case "$1" in
        -p) port="$2"; shift 2;;
        -*) shift 2;;
        *) break;;
    esac
done
host="@HOSTS@/${1#*@}_$port"
shift
if [ ! -d "$host" ]; then echo "ssh: no such host" >&2; exit 255; fi
export HOME="$host"
cd "$host"
if [ -f fail ]; then . ./fail; fi
exec sh -c "$*"
'''

SUDO = '''#!/bin/sh
''' + RECORD + '''
while :; do
    case "$1" in
        -[upgT]) shift 2;;
        -*) shift;;
        *=*) export "$1"; shift;;
        *) break;;
    esac
done
export HOME="@HOSTS@/sudo"
if [ -f "$HOME/fail" ]; then . "$HOME/fail"; fi
exec "$@"
'''

# As scp of OpenSSH 9: remote sources are patterns, a remote target is a name. The argument is remote if there is a colon
# before any slash.
SCP = '''#!/opt/venv/bin/python -SEI
import glob, os, re, shutil, sys
args = sys.argv[1:]
with open('@LOG@/%d' % os.getpid(), 'wb') as f:
    f.write(b''.join(os.fsencode(a) + b'\\0' for a in sys.argv))
port = '22'
while args and args[0].startswith('-'):
    if args[0] in ('-i', '-P'):
        if args[0] == '-P':
            port = args[1]
        del args[0]
    del args[0]

def location(x):
    m = re.fullmatch(r'([^@/:]*)@(\\[[^]]*\\]|[^/:]*):(.*)', x, re.S)
    if m:
        host = '@HOSTS@/%s_%s' % (m.group(2).strip('[]'), port)
        if not os.path.isdir(host):
            sys.exit('scp: no such host: ' + host)
        return host, host + '/root' + m.group(3)
    if ':' in x.split('/')[0]:
        sys.exit('scp: no such host: ' + x)
    return None, x

to_host, target = location(args[-1])
sources = []
for a in args[:-1]:
    host, source = location(a)
    if host is None:
        sources.append(source)
    else:
        found = glob.glob(source)
        if not found:
            print('scp: %s: No such file or directory' % a, file=sys.stderr)
        sources.extend(found)
if not os.path.isdir(target):
    sys.exit('scp: %s: not a directory' % target)
for s in sources:
    to = os.path.join(target, os.path.basename(s.rstrip('/')))
    if os.path.isdir(s):
        shutil.copytree(s, to, dirs_exist_ok=True)
    else:
        shutil.copy2(s, to)
'''


class Remote(object):

    def __init__(self, scratch):
        self.dir = f'{scratch}/remote'
        self.hosts = f'{self.dir}/hosts'
        self.log = f'{self.dir}/log'
        self.bin = f'{self.dir}/bin'
        for d in (self.dir, self.hosts, self.log, self.bin):
            os.makedirs(d, exist_ok=True)
        self.script('farcel.py', FARCEL)
        self.script('ssh', SSH)
        self.script('sudo', SUDO)
        self.script('scp', SCP)
        os.environ['PATH'] = self.bin + ':' + os.environ['PATH']
        self.start_farcels()

    def script(self, name, text):
        with open(f'{self.bin}/{name}', 'w') as f:
            f.write(text.replace('@LOG@', self.log).replace('@HOSTS@', self.hosts))
        os.chmod(f'{self.bin}/{name}', 0o755)

    def reset(self):
        for d in (self.hosts, self.log):
            shutil.rmtree(d)
            os.mkdir(d)

    def add_host(self, addr, port=22, startup=None, fail=None):
        home = f'{self.hosts}/sudo' if addr is None else f'{self.hosts}/{addr}_{port}'
        os.mkdir(home)
        if startup is not None:
            import marcel.persistence.storagelayout
            from marcel.object.workspace import Workspace
            old = os.environ['HOME'], Workspace.DEFAULT
            os.environ['HOME'], Workspace.DEFAULT = home, None
            marcel.persistence.storagelayout.ensure_current(testing=True, initial_config=startup)
            os.environ['HOME'], Workspace.DEFAULT = old
        if fail is not None:
            with open(f'{home}/fail', 'w') as f:
                f.write(fail)
        return home

    def calls(self):
        """How the stand-ins were called."""
        calls = []
        for name in os.listdir(self.log):
            with open(f'{self.log}/{name}', 'rb') as f:
                args = [os.fsdecode(x) for x in f.read().split(b'\0')[:-1]]
            calls.append([os.path.basename(args[0])] + args[1:])
            os.unlink(f'{self.log}/{name}')
        return sorted(calls)

    # farcel.py

    def start_farcels(self):
        server = socket.socket(socket.AF_UNIX)
        if os.path.exists(f'{self.dir}/s'):
            os.unlink(f'{self.dir}/s')
        server.bind(f'{self.dir}/s')
        server.listen(20)
        parent = os.getpid()
        if os.fork() == 0:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # When the parent ends
                if os.getppid() != parent:
                    os._exit(0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.signal(signal.SIGCHLD, signal.SIG_IGN)
                import dill
                import psutil
                import marcel.api
                import marcel.main
                import marcel.op.forkmanager
                import marcel.object.workspace
                if marcel.object.workspace.Workspace.DEFAULT is not None:
                    raise HarnessError('farcel has been started by a process that used marcel')
                from harness import procs
                procs.preload()
                while True:
                    connection, _ = server.accept()
                    if os.fork() == 0:
                        server.close()
                        self.serve(connection)
                    connection.close()
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(1)
        server.close()

    def serve(self, connection):
        code = b'1'
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            fds = array.array('i')
            message, ancillary, _, _ = connection.recvmsg(1 << 20, socket.CMSG_LEN(3 * fds.itemsize))
            for _, _, data in ancillary:
                fds.frombytes(data[:3 * fds.itemsize])
            if len(fds) < 3:
                os._exit(0)
            cwd, env = json.loads(message)
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)
            for i, fd in enumerate(fds):
                os.dup2(fd, i)
                if fd > 2:
                    os.close(fd)
            sys.stdin = sys.__stdin__ = open(0, closefd=False)
            sys.stdout = sys.__stdout__ = open(1, 'w', closefd=False)
            sys.stderr = sys.__stderr__ = open(2, 'w', closefd=False, errors='backslashreplace')
            sys.argv = [f'{REPO}/bin/farcel.py']
            atexit._clear()
            try:
                runpy.run_path(sys.argv[0], run_name='__main__')
                code = b'0'
            except SystemExit as e:
                code = b'%d' % (e.code if type(e.code) is int else 0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
            threading._shutdown()
            atexit._run_exitfuncs()
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                sys.stdout.close()
                os.close(1)
                os.close(2)
                os.close(0)
                connection.sendall(code)
            except BaseException:
                pass
            os._exit(0)


_REMOTE = None


def remote(scratch):
    global _REMOTE
    if _REMOTE is None:
        _REMOTE = Remote(scratch)
    _REMOTE.reset()
    return _REMOTE
