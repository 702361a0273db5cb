"""Runs one shard of one sub-check, as an unprivileged user inside a scratch directory."""
import ast
import faulthandler
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def drop_privileges():
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError as e:
            print(f'warning: cannot drop privileges: {e}', file=sys.stderr)


def main():
    job = json.loads(sys.argv[1])
    scratch = job['scratch']  # Owned by the unprivileged user
    home = f'{scratch}/home'
    drop_privileges()
    os.makedirs(home, exist_ok=True)
    os.makedirs(f'{scratch}/work', exist_ok=True)
    os.environ['HOME'] = home
    os.environ['USER'] = os.environ['LOGNAME'] = 'nobody'
    os.environ['TMPDIR'] = f'{scratch}/tmp'
    os.makedirs(os.environ['TMPDIR'], exist_ok=True)
    os.chdir(f'{scratch}/work')
    # Files of this size are never needed. Protects the disk from a runaway case.
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.path.append(VT)
    faulthandler.enable()
    # Results go to the real stdout's replacement; marcel's own output must not interfere.
    result = {'check': job['check'], 'shard': job['shard'], 'status': 'error', 'message': ''}
    started = time.time()
    try:
        run(job, result)
    except BaseException as e:
        result['status'] = 'error'
        result['message'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    result['wall_s'] = time.time() - started
    tmp = f"{job['out']}.tmp"
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.rename(tmp, job['out'])
    sys.stdout.flush()
    sys.stderr.flush()
    # No atexit processing: everything this process made is in scratch.
    os._exit(0)


def in_marcel(tb):
    """Did the exception pass through marcel's own code?"""
    prefix = os.path.join(REPO, 'marcel') + os.sep
    for frame, _ in traceback.walk_tb(tb):
        if frame.f_code.co_filename.startswith(prefix):
            return True
    return False


def run(job, result):
    from harness import core
    # With a hashseed set by the driver, all is a function of the code and the seed.
    module = importlib.import_module(f"props.{job['property'].lower()}")
    chk = [c for c in core.REGISTRY if c.name == job['check']][0]
    cx = core.Context()
    cx.tier = job['tier']
    cx.scratch = job['scratch']
    cx.seed = job['seed']
    if chk.setup:
        chk.setup(cx)
    last = {}
    with open(f'{VERIF}/known-findings.txt') as f:
        listed = [line for line in f if line.startswith(f"finding: property={job['property']} ")]

    def on_alarm(signum, frame):
        raise core.Hang(f'No termination within {chk.timeout}s')

    signal.signal(signal.SIGALRM, on_alarm)

    def one(value):
        cx.begin(value)
        last['value'] = value
        last.pop('exc', None)
        signal.setitimer(signal.ITIMER_REAL, chk.timeout, 5)
        try:
            chk.body(value, cx)
        except core.Violation as e:
            last['exc'] = str(e)
            last['failing'] = value
            raise
        except core.Known as e:
            if not any(str(e) in line for line in listed):
                last['exc'] = str(e)
                last['failing'] = value
                raise core.Violation(f'not a listed finding: {e}') from e
            cx.known[str(e)] = cx.known.get(str(e), 0) + 1
        except core.HarnessError:
            raise
        except core.Hang:
            raise
        except (Exception, SystemExit) as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            if in_marcel(e.__traceback__):
                text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
                last['exc'] = f'unexpected {type(e).__name__}: {e}\n{text}'
                last['failing'] = value
                raise core.Violation(f'unexpected {type(e).__name__}: {e}') from e
            raise
        except BaseException as e:
            # marcel has exceptions which are BaseExceptions (not Exceptions)
            if isinstance(e, (KeyboardInterrupt, GeneratorExit)) or type(e).__module__.startswith('hypothesis'):
                raise
            if in_marcel(e.__traceback__):
                text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
                last['exc'] = f'unexpected {type(e).__name__}: {e}\n{text}'
                last['failing'] = value
                raise core.Violation(f'unexpected {type(e).__name__}: {e}') from e
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        cx.end()

    status = 'ok'
    try:
        if job.get('replay') is not None:
            one(ast.literal_eval(job['replay']))
        else:
            if job['shard'] == 0:
                for value in chk.pre:
                    one(value)
            n = max(1, job['examples'])
            seed = zlib.crc32(f"{job['seed']}/{job['property']}/{job['check']}/{job['shard']}".encode())
            import hypothesis
            from hypothesis import settings, HealthCheck, Phase

            collect = os.environ.get('VERIF_COLLECT')

            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @hypothesis.given(chk.strategy())
            def test(value):
                if collect is None:
                    one(value)
                else:
                    # For development: collect all failures, instead of stopping at the first
                    try:
                        one(value)
                    except (core.Violation, core.Hang) as e:
                        with open(collect, 'a') as f:
                            f.write(json.dumps([job['check'], last.get('exc', str(e)), repr(value)]) + '\n')

            test()
    except core.Violation as e:
        status = 'violation'
        result['message'] = last.get('exc', str(e))
        result['value'] = repr(last.get('failing'))
    except core.Hang as e:
        status = 'violation'
        result['message'] = f'hang: {e} (a case takes well under a second normally)'
        result['value'] = repr(last.get('value'))
    result['status'] = status
    result['evaluations'] = cx.evaluations
    result['nontrivial'] = sorted(cx.nontrivial_hashes)
    result['labels'] = cx.labels
    result['samples'] = cx.samples
    result['known'] = cx.known
    result['excluded'] = cx.excluded
    result['rule'] = chk.rule


if __name__ == '__main__':
    main()
