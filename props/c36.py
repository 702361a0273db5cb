"""C36: ps lists the processes selected, with their attributes; Process objects."""
import atexit
import os
import pathlib
import pwd
import grp
import signal
import subprocess
import time

import hypothesis.strategies as st

from harness import mar, objects
from harness.core import check, short

TOKENS = ['zq-alpha', 'zq-beta', 'zq-alphabet', 'zq', 'q-al']
ARGS = st.one_of(st.sampled_from(TOKENS + ['', ' ', 'a b', 'é', 'x\ny', "it's", '-c', '*', '\t']), st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=6))
SPECS = st.tuples(st.sampled_from(['sh', 'zq-alpha', 'zq beta', 'zq) R (', 'zq-a-very-long-name-for-a-process', 'é']), st.one_of(st.just('argv0'), ARGS), st.lists(ARGS, max_size=4),
                  st.sampled_from(['sleeping', 'sleeping', 'stopped', 'zombie']), st.booleans())
SELECTORS = st.one_of(
    st.just(('all',)), st.just(('user',)), st.just(('group',)),
    st.tuples(st.just('user'), st.sampled_from(['me', 'me id', 'root', '0', 'daemon', '1'])),
    st.tuples(st.just('group'), st.sampled_from(['me', 'me id', 'root', '0', 'daemon', '1'])),
    st.tuples(st.just('pid'), st.sampled_from(['child', 'child', 'self', 'one', 'none', 'prefix'])),
    st.tuples(st.just('command'), st.sampled_from(TOKENS + ['sh', 'read', 'zq beta', 'ZQ', 'no-such-zq', 'zq-a-very-long-name-for-a-process', '/', 'argv0', 'b', 'a zq', 'read line zq-alpha'])),
    st.tuples(st.just('adjacent'), st.integers(0, 20)),
    st.tuples(st.just('bad'), st.sampled_from(['-u zq-nobody', '-g zq-nobody', '-p abc', '-p 1.5', "-p ''", '-u (1.5)', '-p ([1])', '-c (1)', '-p', '-c', '-u root -p 1', 'zq'])))
FORMS = st.sampled_from(['short', 'long', 'expression', 'api', 'api'])
cases = st.tuples(st.lists(SPECS, min_size=2, max_size=5), st.lists(st.tuples(SELECTORS, FORMS), min_size=2, max_size=6), st.booleans())


def ids():
    return {int(x) for x in os.listdir('/proc') if x.isdigit()}


def observe(pid):
    """Attributes of a process according to /proc, or None"""
    try:
        status = dict(line.split(':', 1) for line in open(f'/proc/{pid}/status', errors='surrogateescape').read().splitlines() if ':' in line)
        raw = open(f'/proc/{pid}/cmdline', 'rb').read()
        try:
            exe = os.readlink(f'/proc/{pid}/exe')
        except PermissionError:
            exe = None
        except OSError:
            exe = ''
        cmdline = os.fsdecode(raw[:-1] if raw.endswith(b'\0') else raw).split('\0') if raw else []
        return dict(pid=pid, ppid=int(status['PPid']), uids=tuple(int(x) for x in status['Uid'].split()[:3]), gids=tuple(int(x) for x in status['Gid'].split()[:3]),
                    state=status['State'].split()[0], cmdline=cmdline, exe=exe, comm=status['Name'].strip())
    except (OSError, KeyError):
        return None


STATES = {'S': 'sleeping', 'T': 'stopped', 'Z': 'zombie', 'R': 'running', 'D': 'disk-sleep', 'I': 'idle'}


class Children(object):

    def __init__(self, cx):
        self.dir = pathlib.Path(cx.scratch) / 'work' / 'c36'
        os.makedirs(self.dir, exist_ok=True)
        self.processes = []

    def start(self, spec, cx):
        name, argv0, args, state, marked = spec
        link = self.dir / name
        if not link.is_symlink():
            link.symlink_to('/bin/sh')
        env = dict(PATH='/usr/bin:/bin', MARK='zq-mark' if marked else '')
        p = subprocess.Popen([argv0, '-c', 'read line', *args], executable=str(link), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=str(self.dir))
        self.processes.append((p, spec))
        if state == 'stopped':
            p.send_signal(signal.SIGSTOP)
        elif state == 'zombie':
            p.kill()
        want = dict(sleeping='S', stopped='T', zombie='Z')[state]
        for _ in range(2000):
            seen = observe(p.pid)
            if seen and seen['state'] == want and (want == 'Z' or seen['cmdline'][1:2] == ['-c']):
                return p
            time.sleep(0.005)
        raise mar.HarnessError(f'{spec} did not start: {seen}')

    def close(self):
        for p, _ in self.processes:
            p.kill()
            p.stdin.close()
            p.wait()


def selected(selector, processes, children):
    """(arguments of ps, whether a process with some attributes qualifies)"""
    kind = selector[0]
    value = selector[1] if len(selector) > 1 else None
    if kind == 'all':
        return None, lambda x: True
    if kind == 'user':
        name, id = {None: (None, os.getuid()), 'me': (pwd.getpwuid(os.getuid()).pw_name, os.getuid()), 'me id': (str(os.getuid()), os.getuid())}.get(value) or (
            (value, int(value)) if value.isdigit() else (value, pwd.getpwnam(value).pw_uid))
        return name, lambda x: id in x['uids']
    if kind == 'group':
        name, id = {None: (None, os.getgid()), 'me': (grp.getgrgid(os.getgid()).gr_name, os.getgid()), 'me id': (str(os.getgid()), os.getgid())}.get(value) or (
            (value, int(value)) if value.isdigit() else (value, grp.getgrnam(value).gr_gid))
        return name, lambda x: id in x['gids']
    if kind == 'pid':
        pid = dict(child=children[0].pid, self=os.getpid(), one=1, none=2 ** 22 + 5, prefix=int(str(children[0].pid)[:-1] or '1'))[value]
        return str(pid), lambda x: x['pid'] == pid
    if kind == 'adjacent':
        # Contained in the command line, but not in any of its parts
        cmdline = next((c for c in [(observe(c.pid) or {}).get('cmdline') for c in children] if c), ['zq', 'zq'])
        i = value % (len(cmdline) - 1)
        value = f'{cmdline[i][-3:]} {cmdline[i + 1][:3]}'
        if "'" in value or '\\' in value or value.startswith('-') or not value.isprintable():
            value = 'c read'
    # The name is that of the executable, also if the kernel truncates it
    return value, lambda x: value in x['comm'] or value in (x['exe'] or '') or any(value in a for a in x['cmdline'])


FLAGS = dict(adjacent=('-c', '--command'), user=('-u', '--user'), group=('-g', '--group'), pid=('-p', '--pid'), command=('-c', '--command'))


@check('ps', lambda: cases, quick=350, thorough=8000, shards=(3, 8), rule='a selector that some of the processes started satisfy, and some do not')
def ps(case, cx):
    specs, selectors, colored = case
    import marcel.api
    import marcel.object.process
    mar.api_session()
    s = mar.shared_session()
    children = Children(cx)
    os.chdir(children.dir)
    try:
        for spec in specs:
            children.start(spec, cx)
        pids = [p.pid for p, _ in children.processes]
        spec_of = {p.pid: spec for p, spec in children.processes}
        for selector, form in selectors:
            cx.label(selector[0])
            if selector[0] == 'bad':
                r = s.eval(f'ps {selector[1]}')
                cx.true(r.killed and not r.out, f'ps {selector[1]} was accepted: {short(r.out)}')
                continue
            value, qualifies = selected(selector, None, [p for p, _ in children.processes])
            # Those that exist before and after are there in between
            start = time.time()
            before = {pid: observe(pid) for pid in ids()}
            if form == 'api':
                kwargs = {} if selector[0] == 'all' else {{'adjacent': 'command'}.get(selector[0], selector[0]): int(value) if value and value.isdigit() and selector[0] == 'pid' else value}
                text = f'ps(**{kwargs})'
                found = list(marcel.api.ps(**kwargs))
            else:
                text = 'ps'
                if selector[0] != 'all':
                    text += ' ' + FLAGS[selector[0]][form == 'long']
                    if value is not None:
                        text += f' ({value!r})' if form == 'expression' else f" '{value}'"
                r = s.eval(text)
                cx.true(r.killed is None, f'{text}: {r.killed}')
                found = [x[0] for x in r.out]
            after = {pid: observe(pid) for pid in ids()}
            seen = [x.pid for x in found]
            cx.true(len(set(seen)) == len(seen), f'{text}: duplicates in {seen}')
            cx.true(all(isinstance(x, marcel.object.process.Process) for x in found), f'{text}: {short(found)}')
            for pid in sorted(set(before) & set(after)):
                x, y = before[pid], after[pid]
                if x is None or y is None or qualifies(x) != qualifies(y) or pid not in pids and x != y:
                    continue
                cx.true((pid in seen) == qualifies(x), f'{text}: {"missing" if qualifies(x) else "unexpected"} process {x}')
            for pid in set(seen) - set(before) - set(after):
                p = next(x for x in found if x.pid == pid)
                cx.true(p.create_time >= start - 1, f'{text}: there is no process {pid}')
            mine = [qualifies(after[pid]) for pid in pids]
            cx.nontrivial(any(mine) and not all(mine))
            for x in found:
                if x.pid in pids:
                    examine(x, after[x.pid], spec_of[x.pid], children, cx)
                compact = x.render_compact()
                cx.true(str(x.pid) in compact, f'compact rendering of {x.pid}: {compact}')
                if x.username is None or x.status is None:
                    continue
                full = x.render_full(None)
                words = full.split(None, 4)
                cx.eq(words[:4], [str(x.pid), str(x.ppid), x.username, x.status], f'rendering of {x.pid}')
                cx.true(full.endswith(x.command), f'rendering of {x.pid}: {full!r}')
        # A signal reaches exactly the process it is sent to
        p, spec = children.processes[0]
        if spec[3] != 'zombie':
            r = s.eval(f'ps -p {p.pid} | map (p: p.signal(9))')
            cx.eq(mar.plain(r.out), [(None,)], 'killing a process')
            cx.eq(p.wait(20), -9, 'killed process')
            for q, spec in children.processes[1:]:
                cx.true(spec[3] == 'zombie' or q.poll() is None, 'another process was killed, too')
    finally:
        children.close()
        os.chdir(cx.scratch)


def examine(x, seen, spec, children, cx):
    name, argv0, args, state, marked = spec
    what = f'process {x.pid} ({spec})'
    cx.eq((x.pid, x.ppid, tuple(x.uids), tuple(x.gids)), (seen['pid'], os.getpid(), seen['uids'], seen['gids']), what)
    cx.eq(x.username, pwd.getpwuid(os.getuid()).pw_name, what)
    cx.eq(str(x.status), STATES[seen['state']], what)
    if state == 'zombie':
        cx.true(not x.cmdline, f'{what} has command line {x.cmdline}')
        cx.eq(x.command, '', what)
        return
    cx.eq(list(x.cmdline), [argv0, '-c', 'read line', *args], what)
    cx.eq(x.command, ' '.join([argv0, '-c', 'read line', *args]), what)
    cx.eq(x.exe, os.path.realpath('/bin/sh'), what)
    cx.eq(x.cwd, str(children.dir.resolve()), what)
    cx.eq(x.environ.get('MARK'), 'zq-mark' if marked else '', what)
    cx.true(abs(x.create_time - time.time()) < 600, f'{what} created at {x.create_time}')


@check('identity', lambda: objects.cases, quick=250, thorough=8000, shards=(2, 4), rule='equal items, in the same or in different objects')
def identity(case, cx):
    """Processes are equal if they have the same pid, are ordered by pid, and can be used with all operators."""
    s = mar.shared_session()
    pids = IDENTITY.get('pids')
    if pids is None:
        IDENTITY['children'] = children = [subprocess.Popen(['/bin/cat'], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL) for _ in range(5)]
        pids = IDENTITY['pids'] = sorted(c.pid for c in children)
        atexit.register(lambda: [c.kill() for c in children])
    find = lambda pid: s.eval(f'ps -p {pid}').out[0][0]
    cache = IDENTITY.setdefault('processes', [find(pid) for pid in pids])
    objects.check_operators(case, cx, cache, lambda p: p.pid, lambda p: find(p.pid))


IDENTITY = {}
