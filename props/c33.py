"""C33: commands run as jobs of an interactive session have their effects on the session, and only those."""
import os
import re
import shutil
import time

import hypothesis.strategies as st

from harness import mar, terminal
from harness.core import Violation, check, short

NAMES = ['a', 'b', 'c']
NAME = st.sampled_from(NAMES)
DIR = st.sampled_from(['d', 'd/e', '..', '.', '~', 'nowhere', "(os.path.join('d', 'e'))"])


@st.composite
def values(draw):
    return draw(st.sampled_from(['(5)', "'text'", '(None)', '(True)', '([1, [2]])', "({'k': (1, 2)})", '(3.5)', '(set([1]))', '([lambda: 5])',
                                 '(lambda x: x * 2)', '(lambda x: (x, a))', "(File('d'))", '(| gen 3 |)', '(| n: gen (n) | (x: x + 1) |)',
                                 '(| x: gen (x) >>$ c |)', '(a)', '(b)']))


@st.composite
def commands(draw):
    kind = draw(st.sampled_from(['assign'] * 4 + ['use'] * 3 + ['run'] * 5 + ['store'] * 4 + ['load'] * 3 + ['call'] * 3 + ['delete'] * 2
                                + ['dir'] * 3 + ['error'] * 2 + ['bad', 'host', 'import', 'capture', 'die', 'vars']))
    n = draw(NAME)
    if kind == 'assign':
        return f'{n} = {draw(values())}' if draw(st.integers(0, 9)) else "d = (open('/dev/null'))"   # Cannot be sent to a job
    if kind == 'use':
        return draw(st.sampled_from([f'({n})', f'gen 1 | (i: {n})', f'gen 2 | (i: (i, {n}))', f'gen 1 | (i: {n}(i))']))
    if kind == 'run':
        return draw(st.sampled_from([n, n, n, f'{n} 2', f'{n} | (x: (x, 0))', f'gen 2 | args (| i: {n} |)']))
    if kind == 'store':
        return f'{draw(st.sampled_from(["gen 3", "gen 2 5", "gen 2 | (x: (x, str(x)))", "gen 1 | (x: (lambda: x))", "gen 0 | select (x: False) | head 1"][:4]))} {draw(st.sampled_from([">$", ">$", ">>$", ">", ">>"]))} {n}'
    if kind == 'load':
        return draw(st.sampled_from([f'{n} <$', f'{n} <$ | (x: [x])', f'{n} <$ | head 1', f'{n} <']))
    if kind == 'call':
        return draw(st.sampled_from([f'{n} 1', f'{n} >$ {draw(NAME)}', f'{n} >>$ {draw(NAME)}', f'(root(9))', '(math.pi)', 'gen 1 | (x: math.e)']))
    if kind == 'delete':
        return f'env -d {n}'
    if kind == 'dir':
        return draw(st.sampled_from(['cd', 'pwd', 'pwd', 'dirs', 'popd', 'gen 1 | (x: os.getcwd())', 'gen 1 | (x: PWD)'])) if draw(st.booleans()) else f'{draw(st.sampled_from(["cd", "pushd"]))} {draw(DIR)}'
    if kind == 'error':
        # Some fail after having had an effect
        return draw(st.sampled_from(['gen 3 | args (| i: cd d |)', 'gen 3 | args (| i: pushd ("d" if i == 0 else "nowhere") |)', f'gen 3 | args (| i: gen 2 | args (| j: pushd .. |) | args (| k: cd nowhere |) |)', 'gen 3 | (x: 1 / (x - 1))', 'gen 1 | (x: undefined)', '(1 / 0)', 'gen 3 | (x: raise_it(x))']))
    if kind == 'bad':
        return draw(st.sampled_from(['gen x', 'no_such_command', 'gen 3 |', "('open", 'gen 2 | (x: x.y) | red', 'head', 'jobs extra', '', '   ', '# comment']))
    if kind == 'host':
        return draw(st.sampled_from(['echo text', 'ls d | (f: str(f))', 'gen 2 | bash cat', 'sh -c "exit 3"', 'cat /dev/null']))
    if kind == 'import':
        return draw(st.sampled_from(['import math', 'import -a root math sqrt', 'import os', 'import no_such_module']))
    if kind == 'capture':
        return draw(st.sampled_from(['gen 2 | (x: print(x))', 'gen 2 | sort | reverse', 'jobs']))
    if kind == 'die':
        return draw(st.sampled_from(['gen 1 | (x: os._exit(3))', 'gen 1 | (x: os.kill(os.getpid(), 9))', 'gen 1 | (x: os.kill(os.getpid(), 15))',
                                     f'gen 1 | (x: os._exit(0)) >$ {n}z']))
    return f"env | select (k, v: k in ('a', 'b', 'c')) | (k, v: k) | sort"


@st.composite
def called(draw):
    """A pipeline that changes the session, and is run as a job."""
    body = draw(st.sampled_from(['cd d', 'cd ..', 'cd', 'pushd d', 'pushd ..', 'popd', 'dirs -c', 'env -d b', 'env -d c', 'env -d p', 'import math', 'import -a root math sqrt',
                                 'gen 2 >$ b', 'gen 2 >>$ c', 'b <$ >$ c', 'b <$ >>$ b', 'gen 1 | (x: (lambda: 5)) >$ a', 'gen 2 | args (| i: gen (i + 1) >>$ b |)']))
    check = draw(st.sampled_from(['pwd', 'dirs', 'gen 1 | (x: os.getcwd())', '(root(9))', '(math.pi)', '(b)', '(c)', 'b <$', 'c <$', "env | select (k, v: k in 'abcp') | (k, v: k) | sort"]))
    return [f'p = (| {body} |)', draw(st.sampled_from(['p', 'p', 'p | head 1', 'gen 2 | args (| i: p |)'])), check]


@st.composite
def sessions(draw):
    return [c for part in draw(st.lists(st.one_of(commands().map(lambda c: [c]), commands().map(lambda c: [c]), called()), min_size=3, max_size=9)) for c in part]


def lines(text, top):
    text = re.sub(r' at 0x[0-9a-f]+', '', text)
    text = re.sub(r'reservoirs/\d+\.', 'reservoirs/', text)
    # Times of directories differ.
    text = re.sub(r'20\d\d \w\w\w .\d \d\d:\d\d:\d\d', '<time>', text)
    return [x.rstrip().replace(top, '<top>') for x in text.split('\n') if x.strip()]


def fresh(cx):
    top = f'{cx.scratch}/c33'
    shutil.rmtree(top, ignore_errors=True)
    for side in ('tty', 'ref'):
        home = f'{top}/{side}'
        os.makedirs(f'{home}/d/e/f')
        os.makedirs(f'{home}/d/d/e')
        terminal.new_home(home, terminal.STARTUP + 'import os\n')
    return top


@check('session', sessions, quick=72, thorough=600, shards=(8, 8), timeout=240,
       rule='A command run as a job assigned, stored or changed the directory, or failed, and later commands of the session ran')
def session(sequence, cx):
    top = fresh(cx)
    home = f'{top}/ref'
    before = os.environ['HOME'], os.getcwd()
    os.chdir(home)
    t = None
    try:
        s = mar.Session(home=home, reset=False)
        t = terminal.TtySession(f'{top}/tty')
        done = []
        changing = 0
        for c in sequence:
            done.append(c)
            died = '_exit' in c or 'os.kill' in c
            if died:
                expected = []
            else:
                out, err = s.command(c)
                expected = lines(terminal.TtySession.text(out.encode()) + terminal.TtySession.text(err.encode()), f'{top}/ref')
            try:
                actual = lines(t.command(c), f'{top}/tty')
            except Exception as e:
                cx.fail(f'{done}: {e}')
            if c == 'jobs' or died:
                continue
            cx.eq(sorted(actual), sorted(expected), f'Output of the last command of {done}')
            changing += 1
        names = sorted(s.env.vars().keys())
        t.type('\x04')
        if changing > 3:
            cx.nontrivial()
    finally:
        if t:
            t.close()
        os.chdir(before[1])
        os.environ['HOME'] = before[0]


# Foreground and background

HOLD = '''
def hold(k):
    import os, time
    home = os.environ['HOME']
    with open(f'{home}/started.{k}.tmp', 'w') as f:
        f.write(str(os.getpid()))
    os.rename(f'{home}/started.{k}.tmp', f'{home}/started.{k}')
    while not os.path.exists(f'{home}/go.{k}'):
        time.sleep(0.01)
    return k
'''

FORMS = ['gen 1 | (x: hold({k})) >$ v{k}', 'gen 2 | (x: (x, hold({k})))', 'p {k}', "gen 1 | bash ~/script.sh {k}", "gen 1 | args (| x: gen 1 | (x: hold({k})) >$ v{k} |)"]
EFFECT = [True, False, False, False, True]


@st.composite
def job_histories(draw):
    """Steps: start(form), then while it runs: release, ctrl-z, ctrl-c, kill; and at the prompt: bg(i), fg(i), release(i), kill(i), run, bad.
    i denotes one of the jobs, if there is one."""
    at_prompt = st.tuples(st.sampled_from(['start'] * 5 + ['bg', 'bg', 'fg', 'fg', 'fg', 'release', 'release', 'kill', 'run', 'ctrl-c', 'bad']), st.integers(0, 9))
    in_command = st.tuples(st.sampled_from(['ctrl-z'] * 5 + ['ctrl-c', 'release', 'release', 'kill']), st.integers(0, 9))
    return draw(st.lists(st.tuples(at_prompt, in_command), min_size=2, max_size=12)), draw(st.booleans())


def alive(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rpartition(')')[2].split()[0] not in ('Z', 'X')
    except OSError:
        return False


class Model(object):

    def __init__(self, key, form, pid, job_pid):
        self.key = key
        self.form = form
        self.pid = pid
        self.state = 'fg'
        self.released = False


@check('jobs', job_histories, quick=56, thorough=800, shards=(8, 8), timeout=240,
       rule='A job was paused, and resumed later, or several jobs existed at a time')
def jobs(case, cx):
    history, login = case
    top = f'{cx.scratch}/c33'
    shutil.rmtree(top, ignore_errors=True)
    home = f'{top}/home'
    terminal.new_home(home, terminal.STARTUP + HOLD)
    with open(f'{home}/script.sh', 'w') as f:
        f.write('echo $$ > ~/started.$1.tmp; mv ~/started.$1.tmp ~/started.$1\nwhile [ ! -e ~/go.$1 ]; do sleep 0.01; done\necho $1\n')
    os.chmod(f'{home}/script.sh', 0o755)
    t = terminal.TtySession(home, login=login)
    done = []
    model = []     # The jobs, in order
    everything = []
    finished = {}  # key -> it completed
    interesting = False

    def fail(message):
        cx.fail(f'{done}: {message}')

    def wait(condition, message, timeout=15):
        end = time.monotonic() + timeout
        while not condition():
            if time.monotonic() > end:
                fail(message() if callable(message) else message)
            time.sleep(0.01)

    def output(job):
        return {0: [], 1: [f'(0, {job.key})', f'(1, {job.key})'], 2: [f'({job.key}, None)'], 3: [str(job.key)], 4: []}[job.form]

    def listing():
        """What jobs prints: [(state, command)]"""
        out = []
        # Output of jobs running in the background may be interspersed.
        for m in re.findall(r'^(\d+)\((.)\): (\d+)  (.*?) *$', t.command('jobs'), re.MULTILINE):
            if int(m[0]) != len(out):
                fail(f'jobs printed {m}')
            out.append((m[1], m[3]))
        return out

    def expected():
        return [('+' if j.state == 'bg' else '-', j.text) for j in model]

    def check_listing(what):
        # The end of a job may take a moment.
        last = []

        def same():
            last[:] = [listing()]
            return last[0] == expected()
        wait(same, lambda: f'{what}: jobs lists {last[0]}, expected {expected()}')

    def ended(job, completed):
        model.remove(job)
        finished[job.key] = completed

    def release(job):
        job.released = True
        open(f'{home}/go.{job.key}', 'w').close()

    try:
        t.command('p = (| k: gen 1 | (x: (hold(int(k)), None)) |)')
        for i, (outer, inner) in enumerate(history):
            what, n = outer
            job = model[n % len(model)] if model else None
            done.append(what if job is None or what == 'start' else f'{what} {model.index(job)}')
            current = None
            if what == 'start':
                form = n % len(FORMS)
                text = FORMS[form].replace('{k}', str(i))
                done[-1] = text
                t.type(text + '\r')
                wait(lambda: os.path.exists(f'{home}/started.{i}'), lambda: f'it does not start: {t.read(0.1)} {short(t.text(t.buffer), 500)}')
                current = Model(i, form, int(open(f'{home}/started.{i}').read()), None)
                current.text = text
                model.append(current)
                everything.append(current)
            elif what == 'run':
                cx.eq(t.command('gen 2'), '0\n1\n', f'{done}: output')
            elif what == 'bad':
                out = t.command(f'{"fg" if n % 2 else "bg"} {len(model) + n // 2}')
                cx.true('There is no job' in out, f'{done}: printed {out!r}')
            elif what == 'ctrl-c':
                # Ignored until the line editor runs.
                wait(lambda: t.type(b'\x03') or t.prompted(0.5), 'no prompt following ctrl-c')
            elif job is None:
                done.pop()
                continue
            elif what == 'bg':
                cx.eq(t.command(f'bg {model.index(job)}'), '', f'{done}: output')
                job.state = 'bg'
                interesting = True
            elif what == 'fg':
                t.type(f'fg {model.index(job)}\r')
                t.wait_for_echo()
                job.state = 'fg'
                current = job
                interesting = True
            elif what == 'release':
                release(job)
            elif what == 'kill':
                os.kill(job.pid, 9)
                job.killed = True
            # Jobs which now run to the end
            if current is None:
                for j in list(model):
                    if j.state == 'bg' and j.released:
                        ended(j, True)
                    elif getattr(j, 'killed', False):
                        ended(j, False)
            else:
                if current.released:
                    # It ends before there is a chance to do anything.
                    ended(current, True)
                    t.result()
                else:
                    what, _ = inner
                    done.append(what)
                    if what == 'ctrl-z':
                        time.sleep(0.2)
                        # Has no effect until the command is executed.
                        wait(lambda: t.type(b'\x1a') or t.prompted(5), 'no prompt following ctrl-z')
                        current.state = 'paused'
                    elif what == 'ctrl-c':
                        time.sleep(0.2)
                        wait(lambda: t.type(b'\x03') or t.prompted(5), 'no prompt following ctrl-c')
                        ended(current, False)
                        wait(lambda: not alive(current.pid), 'the process of the job is still there')
                    elif what == 'release':
                        release(current)
                        out = t.result()
                        ended(current, True)
                        cx.eq([x for x in lines(out, top) if x != '^Z'], output(current), f'{done}: output of the command')
                    elif what == 'kill':
                        os.kill(current.pid, 9)
                        t.result()
                        ended(current, False)
            interesting |= len(model) > 1
            check_listing(done)
        for j in everything:
            if EFFECT[j.form] and j.key in finished:
                out = t.command(f'v{j.key} <$')
                if finished[j.key]:
                    cx.eq(out, f'{j.key}\n', f'{done}: the variable assigned by job {j.key}')
                else:
                    cx.true('undefined' in out, f'{done}: v{j.key} has been assigned by a job that was killed: {out!r}')
        out = t.close()
        t = None
        for j in everything:
            wait(lambda: not alive(j.pid), f'the session has ended, but the process of job {j.text} still exists')
        cx.nontrivial(interesting)
    except Violation as e:
        if str(e).startswith(str(done)):
            raise
        fail(str(e))
    finally:
        if t:
            t.close()
        for j in everything:
            if alive(j.pid):
                os.kill(j.pid, 9)
