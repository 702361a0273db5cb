"""check.sh ID [--replay FILE]: run every sub-check of property ID, write evidence/ID.json, report the verdict."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
PYTHON = '/opt/venv/bin/python'
MAX_PROCS = int(os.environ.get('VERIF_PROCS', '8'))


def list_checks(property):
    """The registry is read in a child, so that this (privileged) process never imports marcel."""
    code = ('import sys, json, os; sys.path[:0] = [%r, %r]; sys.path.append(%r); '
            'from harness import core; import importlib; importlib.import_module("props.%s"); '
            'print("REGISTRY " + json.dumps([[c.name, c.quick, c.thorough, list(c.shards), c.rule] '
            'for c in core.REGISTRY]))'
            % (os.environ.get('VERIF_REPO', '/repo'), VERIF,
               '/opt/veriftools/pyvenv/lib/python3.12/site-packages', property.lower()))
    scratch = tempfile.mkdtemp(prefix='verif_reg_')
    try:
        env = dict(os.environ, HOME=scratch)
        p = subprocess.run([PYTHON, '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for line in p.stdout.split('\n'):
        if line.startswith('REGISTRY '):
            return json.loads(line[len('REGISTRY '):])
    print(p.stderr, file=sys.stderr)
    sys.exit(3)


def known_findings(property):
    findings = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'finding: property={property} '):
                findings.append(line)
    return findings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    started = time.time()
    # thorough: a deadline for the whole check, after which no further shards are started.
    checks = list_checks(args.property)
    if args.only:
        checks = [c for c in checks if c[0] in args.only.split(',')]
    base = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    os.chmod(base, 0o755)
    outdir = f'{base}/out'
    os.mkdir(outdir)
    os.chmod(outdir, 0o777)
    pycache = f'{base}/pycache'
    os.mkdir(pycache)
    os.chmod(pycache, 0o777)
    jobs = []
    if args.replay:
        replay = json.load(open(args.replay))
        checks = [c for c in checks if c[0] == replay['check']]
        seed = replay['seed']
        jobs = [dict(property=args.property, check=replay['check'], shard=0, examples=1, seed=seed, tier=tier,
                     replay=replay['value'])]
    else:
        for name, quick, thorough, shards, rule in checks:
            total = quick if tier == 'quick' else thorough
            n = shards[0] if tier == 'quick' else shards[1]
            for shard in range(n):
                jobs.append(dict(property=args.property, check=name, shard=shard,
                                 examples=max(1, int(total * args.scale / n)), seed=seed, tier=tier))
    running = {}
    results = []
    rc_error = None
    n = 0
    pending = list(jobs)
    try:
        while pending or running:
            while pending and len(running) < MAX_PROCS:
                job = pending.pop(0)
                n += 1
                scratch = f'{base}/w{n}'
                os.mkdir(scratch)
                if os.getuid() == 0:
                    os.chown(scratch, 65534, 65534)
                job['scratch'] = scratch
                job['out'] = f'{outdir}/{n}.json'
                env = {
                    'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
                    'LANG': 'C.UTF-8', 'SHELL': '/bin/bash', 'TERM': 'dumb',
                    'HOME': scratch, 'PYTHONHASHSEED': '0',
                    'PYTHONPYCACHEPREFIX': pycache,
                    'VERIF_TIER': tier, 'VERIF_SEED': str(seed),
                }
                for var in ('VERIF_REPO', 'VERIF_COLLECT'):
                    if var in os.environ:
                        env[var] = os.environ[var]
                log = open(f'{base}/log{n}', 'w')
                p = subprocess.Popen([PYTHON, f'{VERIF}/harness/worker.py', json.dumps(job)],
                                     env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                     start_new_session=True, cwd=scratch)
                log.close()
                running[p] = (job, f'{base}/log{n}')
            time.sleep(0.02)
            for p in list(running):
                if p.poll() is not None:
                    job, log = running.pop(p)
                    kill_session(p.pid)
                    if os.path.exists(job['out']):
                        r = json.load(open(job['out']))
                    else:
                        tail = open(log, errors='replace').read()[-3000:]
                        r = dict(check=job['check'], shard=job['shard'], status='error',
                                 message=f'worker died, rc {p.returncode}\n{tail}')
                    results.append(r)
                    remove(job['scratch'])
                    if r['status'] != 'ok':
                        if os.environ.get('VERIF_DEBUG'):
                            print(open(log, errors='replace').read()[-5000:], file=sys.stderr)
                        if r['status'] == 'violation':
                            # One violation decides. Let running workers go.
                            pending = []
                            for q in list(running):
                                kill_session(q.pid)
                                q.wait()
                                running.pop(q)
                            break
    finally:
        for p in running:
            kill_session(p.pid)
        remove(base)
    return finish(args, tier, seed, started, checks, results)


def kill_session(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def remove(path):
    def onexc(function, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            function(p)
        except OSError:
            pass
    assert path.startswith('/tmp/verif_')
    shutil.rmtree(path, onexc=onexc)


def finish(args, tier, seed, started, checks, results):
    property = args.property
    evaluations = sum(r.get('evaluations', 0) for r in results)
    nontrivial = 0
    by_check = {}
    for r in results:
        c = by_check.setdefault(r['check'], dict(evaluations=0, nontrivial=set(), labels={}, known={}, excluded={},
                                                 samples=[], wall_s=0))
        c['evaluations'] += r.get('evaluations', 0)
        c['nontrivial'] |= set(r.get('nontrivial', []))
        c['wall_s'] += r.get('wall_s', 0)
        for field in ('labels', 'known', 'excluded'):
            for k, v in r.get(field, {}).items():
                c[field][k] = c[field].get(k, 0) + v
        if r.get('shard') == 0:
            c['samples'] = r.get('samples', [])
    samples = []
    detail = {}
    for name, c in by_check.items():
        nontrivial += len(c['nontrivial'])
        for s in c['samples'][-3:]:
            samples.append({'check': name, 'case': s})
        detail[name] = dict(evaluations=c['evaluations'], distinct_nontrivial=len(c['nontrivial']),
                            wall_s=round(c['wall_s'], 1))
        for field in ('labels', 'known', 'excluded'):
            if c[field]:
                detail[name][field] = c[field]
    errors = [r for r in results if r['status'] == 'error']
    violations = [r for r in results if r['status'] == 'violation']
    rule = ' | '.join(f'{c[0]}: {c[4]}' for c in checks if c[4])
    evidence = dict(
        property=property, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=evaluations, distinct_nontrivial=nontrivial,
                      rule='Cases are generated by Hypothesis strategies, one value per case. '
                           'Non-trivial, per sub-check: ' + rule,
                      samples=samples or ['none'], by_check=detail),
        assumptions=['Linux, Python 3.12, in-process unless the sub-check says it starts processes',
                     'workers run as user nobody in a scratch directory'],
        wall_s=round(time.time() - started, 2),
        violations=len(violations))
    if not args.replay and not args.only:
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{property}.json', 'w') as f:
            json.dump(evidence, f, indent=1)
    print(f'{property} tier={tier} seed={seed}: {evaluations} cases, {nontrivial} distinct non-trivial, '
          f'{time.time() - started:.1f}s')
    for name, d in detail.items():
        print(f'  {name}: {d}' if os.environ.get('VERIF_VERBOSE') else
              f'  {name}: {d["evaluations"]} cases, {d["distinct_nontrivial"]} non-trivial, {d["wall_s"]}s')
    for f in known_findings(property):
        print(f'KNOWN-FINDING: {f[len("finding: "):]}')
    if violations:
        r = violations[0]
        os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)
        path = f'{VERIF}/evidence/replay/{property}-{r["check"].replace(" ", "-")}.json'
        if not args.replay:
            with open(path, 'w') as f:
                json.dump(dict(property=property, check=r['check'], seed=seed, value=r['value'],
                               message=r['message']), f, indent=1)
        else:
            path = args.replay
        print(f'  check {r["check"]}\n  case {r["value"][:3000]}\n  {r["message"][:3000]}')
        print(f'VIOLATION property={property} replay={path}')
        return 1
    if errors:
        for r in errors[:3]:
            print(f'HARNESS ERROR in {r["check"]}: {r["message"]}', file=sys.stderr)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
