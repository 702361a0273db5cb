"""C09: any text is executed or cleanly rejected; the session survives it unchanged."""
import contextlib
import io
import os
import signal
import sys
import traceback

import hypothesis.strategies as st

from harness import mar
from harness.core import HarnessError, check

SYMBOLS = ['(', '(|', '|)', '|', ')', "'", '"', '\\', '=', '>', '>>', '>$', '>>$', '<', '<$', '#', ',', ':', '!', '!!',
           '@', '{', '}', '[', ']', '*', '?', '~', '$', '-', '--', ' ', ' ', ' ', '  ', '\t', '\n', "'''", '"""', '\\ ',
           '&&', ';', '%', '^', '`']
WORDS = ['gen 3', 'gen', 'map', 'select', 'x', 'f', 'g', 'nothing', '5', '-1', '3.7', "a'b", '-n', '-k', '--csv', '--x',
         'lambda', 'lambda x: x', 'x: x + 1', '(x: x + 1)', '(x: x)', '(', '(1 +', 'x + 1', "('a')", '("(")', "f'{x}'", 'f"{', 'o.x',
         'None', 'True', 'e\u0301\u00e9', '\u4e2d', '\U0001f600', '\x00', '\x1b', '\ufeff', '\u2028', '\xa0',
         'import', 'file.txt', '/tmp', '*.txt', 'PWD', 'USER', '+', '.', 'count', '%', 'cluster', 'p', 'cat', 'true']
OPS = ['args', 'assign', 'bash', 'bg', 'case', 'cast', 'cd', 'delete', 'difference', 'dirs', 'download', 'edit', 'env',
       'expand', 'fg', 'filter', 'fork', 'gather', 'gen', 'head', 'help', 'history', 'import', 'intersect', 'jobs', 'join',
       'load', 'ls', 'map', 'popd', 'ps', 'pushd', 'pwd', 'read', 'red', 'remote', 'reverse', 'run', 'runpipeline',
       'select', 'sort', 'sql', 'squish', 'store', 'sudo', 'tail', 'timer', 'trace', 'tee', 'union', 'unique', 'upload',
       'version', 'window', 'write', 'ws', 'write --csv', 'args -n', 'red -i', 'window -o']

VALID = [
    'gen 3', 'gen 5 | map (x: x + 1) | select (x: x % 2 == 0)', 'x = 5', 'x = (5 + 6)', 'f = (x: x + 1)',
    'f = (| n: gen (n) |)', 'g = (| a, b: gen (int(a)) | map (i: (i, b)) |)', 'f 3', 'f (3) | sort', 'g -a 1 -b 2',
    'g --a 1 --b (2)', "echo 'a b' \"c d\" e\\ f", 'gen 5 | args (| n: gen 2 | map (i: (i, n)) |)',
    'gen 3 | join (| gen 3 | map (x: (x, x)) |)', 'gen 3 > out.txt', 'out.txt < map (x: (x, 1)) | red . +',
    'gen 3 >$ r', 'r <$ map (x: -x) >>$ s', 'gen 3 >> out.txt', 'gen 6 | case (x: x < 3) (| map (x: -x) |) (| red + |)',
    'gen 6 | window -o 2 | tail 2', 'gen 3 | union (| gen 3 |) (| gen 2 |) # comment', 'ls -fr *.txt', 'cd /', 'pwd',
    'gen 3 | write --csv out.csv', 'read -c out.csv', 'import math', 'import os -s path -n p', '(1 + 2)',
    "(print('a', 'b'))", '((x, 3))', "map (lambda: '(')", 'gen 3 | (x: x * 2)', 'ls abc(1 + 2).txt',
    'gen 10 | red + max', 'gen 10 | map (x: (x // 3, x)) | red . +', 'gen 5 | filter -k (| gen 3 |)', 'env PWD', 'env -d x',
    '@host (| gen 3 |)', '!3', '!!', 'sudo (| gen 3 |)', 'gen 5 | fork 2 (| t: map (x: x + t) |)', "sql 'select 1'",
    'help gen', "print = 'x'", 'gen 3 | sort (x: -x) | reverse | unique | head 2', "x = 'a b'", 'history -p x',
    "gen 3 | map (x: f'{x}') | args -a (| a: map (b: (a, b)) |)", 'ps', 'ws -l', 'pushd / | popd', 'dirs -c']

soup = st.lists(st.one_of(st.sampled_from(SYMBOLS), st.sampled_from(SYMBOLS), st.sampled_from(WORDS),
                          st.sampled_from(OPS)), max_size=12).map(''.join)
spaced = st.lists(st.one_of(st.sampled_from(SYMBOLS), st.sampled_from(WORDS), st.sampled_from(WORDS), st.sampled_from(OPS)),
                  max_size=10).map(' '.join)
characters = st.text(st.one_of(st.characters(codec='utf-8'), st.sampled_from('()|\'"\\<>$#,:=! \n{}fgx')), max_size=25)


@st.composite
def mutants(draw):
    """A valid command, or two of them, cut, spliced, with parts deleted, duplicated, and symbols inserted."""
    text = draw(st.sampled_from(VALID))
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 6))
        i = draw(st.integers(0, len(text)))
        j = draw(st.integers(0, len(text)))
        i, j = min(i, j), max(i, j)
        if how == 0:
            text = text[:j]
        elif how == 1:
            text = text[i:]
        elif how == 2:
            text = text[:i] + text[j:]
        elif how == 3:
            text = text[:j] + text[i:]
        elif how == 4:
            text = text[:i] + draw(st.sampled_from(SYMBOLS + WORDS)) + text[i:]
        elif how == 5:
            other = draw(st.sampled_from(VALID))
            text = text[:i] + other[draw(st.integers(0, len(other))):]
        else:
            text = text[:i] + draw(st.sampled_from(SYMBOLS)) + text[i + 1:]
    return text


texts = st.one_of(soup, spaced, mutants(), mutants(), characters)

SETUP = ["x = 7", "f = (| n: gen (n) |)", "g = (| a, b: gen (int(a)) | map (i: (i, b)) |)", 'h = (x: x + 1)',
         'gen 3 >$ r', 'import math']
_state = {}


def session():
    s = mar.shared_session()
    if not _state:
        for line in SETUP:
            s.command(line)
        _state['cwd'] = os.getcwd()
    return s


_audit = {'on': False, 'events': []}


def audit(event, args):
    if _audit['on'] and event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.fork', 'os.remove', 'os.rename', 'os.mkdir',
                                  'os.chdir', 'os.kill', 'shutil.rmtree', 'os.putenv', 'socket.connect'):
        _audit['events'].append(event)
    elif _audit['on'] and event == 'open' and isinstance(args[1], str) and any(c in args[1] for c in 'wax+'):
        _audit['events'].append(f'open {args[0]}')


def namespace(env):
    return {k: id(v) for k, v in env.workspace.namespace.items() if k != '_'} if hasattr(env.workspace.namespace, 'items') \
        else {}


@check('parse', lambda: texts, quick=16000, thorough=800000, shards=(5, 8),
       rule='the text contains at least one non-blank character outside a comment, and at least two tokens')
def parse(text, cx):
    """Parsing yields a pipeline, or an error that the main loop reports; and has no other effect."""
    import marcel.exception
    import marcel.parser
    import marcel.pipeline
    s = session()
    if 'audit' not in _state:
        _state['audit'] = True
        sys.addaudithook(audit)
    before = namespace(s.env)
    out = io.StringIO()
    _audit['events'].clear()
    pipeline = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            _audit['on'] = True
            try:
                pipeline = marcel.parser.Parser(text, s.env).parse()
            finally:
                _audit['on'] = False
        cx.label('accepted')
        cx.true(type(pipeline) is marcel.pipeline.PipelineMarcel, f'{text!r}: parsed to {type(pipeline)}')
    except marcel.parser.EmptyCommand:
        cx.label('empty')
        bare = text.lstrip()
        cx.true(bare == '' or bare[0] == '#', f'{text!r} was taken for an empty command')
        return
    except (marcel.exception.KillCommandException, marcel.exception.KillAndResumeException) as e:
        cx.label('rejected')
        try:
            message = str(e)
        except Exception as x:
            cx.fail(f'{text!r}: rejected, but the error message cannot be printed: {type(x).__name__}: {x}')
        cx.true(message.strip() != '' and message != 'None', f'{text!r}: rejected without any message: {type(e).__name__}')
    except Exception as e:
        cx.fail(f'{text!r}: parsing failed with {type(e).__name__}: {e}')
    cx.eq(out.getvalue(), '', f'{text!r}: output during parsing')
    cx.eq(_audit['events'], [], f'{text!r}: effects during parsing')
    cx.eq(namespace(s.env), before, f'{text!r}: variables after parsing')
    cx.nontrivial(len(text.split()) > 1)


# ----------------------------------------------------------------------------------------------------------------------

RUNNABLE = {'args', 'assign', 'case', 'cast', 'cd', 'difference', 'dirs', 'env', 'expand', 'filter', 'gen', 'head', 'help',
            'history', 'import', 'importop', 'intersect', 'join', 'load', 'ls', 'map', 'popd', 'pushd', 'pwd', 'read', 'red', 'reverse',
            'runpipeline', 'select', 'sort', 'squish', 'store', 'tail', 'tee', 'union', 'unique', 'version', 'window',
            'write', 'ps', 'jobs', 'fg', 'bg', 'run', 'sql', 'delete', 'trace', 'jobop'}
PROBES = [('gen 3 | map (x: x + keep)', [(100,), (101,), (102,)]),
          ('keepf (2) | sort (x: -x)', [(1,), (0,)]),
          ('keepr <$ red + ', [(6,)]),
          ('gen 4 | args (| n: gen 1 | map (i: n) |) | tail 2', [(2,), (3,)]),
          ("keeps = 'a b'", []),
          ('(keeps)', [('a b',)])]
SETUP_RUN = SETUP + ['keep = (100)', 'keepf = (| n: gen (n) |)', 'gen 4 >$ keepr']


class CtrlC(object):
    """Interrupts the command after a while, as ctrl-C would."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def interrupt(signum, frame):
            raise KeyboardInterrupt()
        self.handler = signal.signal(signal.SIGALRM, interrupt)
        self.timer = signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.handler)
        signal.setitimer(signal.ITIMER_REAL, *self.timer)


def all_ops(pipeline, found):
    for op in pipeline.executable.ops:
        found.append(op)
        for value in list(op.__dict__.values()):
            for v in (value if isinstance(value, (list, tuple)) else [value]):
                if type(v).__name__ == 'PipelineMarcel':
                    all_ops(v, found)
    return found


def runnable(pipeline):
    """No executables, other users or hosts, editors; and nothing that generates more than a few tuples."""
    for op in all_ops(pipeline, []):
        name = type(op).__module__.split('.')[-1]
        if name not in RUNNABLE:
            return False
        if name == 'gen' and not (type(op.count_arg) is int and 0 < op.count_arg < 100):
            return False
        for value in op.__dict__.values():
            for v in (value if isinstance(value, (list, tuple)) else [value]):
                if isinstance(v, str) and len(v) < 20 and v.strip('0123456789-+\'"') == '' and len(v) > 3:
                    return False  # Large numbers
    return True


def new_session():
    s = mar.Session()
    for line in SETUP_RUN:
        out, err = s.command(line)
        if out or err:
            raise HarnessError(f'{line}: {out} {err}')
    _state['session'] = s
    _state['namespace'] = namespace(s.env)
    return s


def run_probes(s, cx, text):
    for command, expected in PROBES:
        r = s.eval(command)
        cx.true(r.killed is None, f'after {text!r}: {command} fails: {r.killed}')
        cx.eq(r.out, expected, f'after {text!r}: {command}')
    out, err = s.command('pwd | map (f: str(f))')
    cx.eq((out, err), (os.getcwd() + '\n', ''), f'after {text!r}: pwd')


@check('run', lambda: st.lists(texts, min_size=1, max_size=4), quick=2000, thorough=120000, shards=(7, 8), timeout=120,
       rule='at least one text was rejected or failed')
def run(history, cx):
    """Run texts that do not run executables, as the main loop does. Then the session works as before."""
    import marcel.exception
    import marcel.parser
    os.chdir(cx.scratch + '/work')
    s = _state.get('session') or new_session()
    failed = 0
    for text in history:
        s.env.vars()
        try:
            pipeline = marcel.parser.Parser(text, s.env).parse()
            if not runnable(pipeline):
                cx.label('not runnable')
                continue
        except (Exception, marcel.exception.KillCommandException, marcel.exception.KillAndResumeException):
            pass  # Rejected, so can be run.
        stopped = False
        try:
            with CtrlC(2):
                out, err = s.command(text)
        except KeyboardInterrupt:
            stopped = True
            cx.label('interrupted')
        except marcel.exception.ReconfigureException:
            cx.label('reconfigured')
            _state.pop('session')
            return
        except (Exception, SystemExit) as e:
            frames = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in frames[-4:]]
            cx.fail(f'{text!r}: ends the session with {type(e).__name__}: {e} at {where}')
        if stopped or err:
            failed += 1
        cx.label('interrupted' if stopped else 'error message' if err else 'ran')
        cx.eq(s.env.vars().n_scopes(), 1, f'{text!r}: number of scopes')
    now = namespace(s.env)
    if all(now.get(k) == v for k, v in _state['namespace'].items()) and not any(k in now for k in OPS):
        run_probes(s, cx, history)
        cx.label('probed')
    if set(now) - {'PWD', 'DIRS'} != set(_state['namespace']) or len(cx.labels) > 10 ** 6:
        s.close()
        _state.pop('session')
    else:
        _state['namespace'] = now
    cx.nontrivial(failed > 0)
