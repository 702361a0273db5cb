"""Planting bugs. plant.py ID...: verify the seeded bugs: patch applies, demo passes without and fails with it, the
stable tests pass with it, and the property's check reports it. Changes the working tree of /repo (or
VERIF_REPO), and restores it."""
import json
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TEMPLATE = '''#!/bin/bash
# Runs a marcel script in a scratch home directory, and compares its output with what is expected.
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/script" <<'END_OF_SCRIPT'
{script}
END_OF_SCRIPT
cat > "$T/expected" <<'END_OF_SCRIPT'
{expected}
END_OF_SCRIPT
mkdir "$T/work"
cd "$T/work" || exit 3
HOME=$T PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python -m marcel.main "$T/script" > "$T/actual" 2>&1 < /dev/null
sed -i 's/\\x1b\\[[0-9;]*m//g' "$T/actual"
diff "$T/expected" "$T/actual"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def create(id, property, edits, needs, breaks, script=None, expected=None, demo=None):
    assert sh(f'git -C {REPO} status --porcelain').stdout == ''
    d = f'{VERIF}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    try:
        for path, old, new in edits:
            path = f'{REPO}/{path}'
            s = open(path).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(path, 'w').write(s.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
    finally:
        sh(f'git -C {REPO} checkout -- .')
    open(f'{d}/demo.sh', 'w').write(demo if demo else TEMPLATE.format(script=script.strip('\n'), expected=expected.strip('\n')))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    verify(id, stable='NOSTABLE' not in os.environ)


def verify(id, stable=True, check=True):
    assert sh(f'git -C {REPO} status --porcelain').stdout == ''
    d = f'{VERIF}/seeded/{id}'
    property = json.load(open(f'{d}/meta.json'))['property']
    out = [id, property]
    r = sh(f'bash {d}/demo.sh', cwd=REPO)
    out.append('demo clean ok' if r.returncode == 0 else f'DEMO FAILS ON CLEAN TREE {r.stdout} {r.stderr}')
    try:
        r = sh(f'git -C {REPO} apply {d}/patch.diff')
        if r.returncode:
            out.append('DOES NOT APPLY ' + r.stderr)
        r = sh(f'bash {d}/demo.sh', cwd=REPO)
        out.append('demo fails with it' if r.returncode else 'DEMO PASSES WITH THE PATCH')
        if check:
            r = sh(f'bash check.sh {property}', cwd=VERIF)
            caught = r.returncode == 1 and f'VIOLATION property={property} ' in r.stdout
            out.append('CAUGHT' if caught else f'MISSED rc={r.returncode} {r.stderr[-500:]}')
            line = [x for x in r.stdout.split('\n') if x.startswith(('  check ', '  case '))]
            out.append(' '.join(line)[:300])
        if stable:
            r = sh(f'bash /tmp/stable.sh {REPO}')
            out.append([x for x in r.stdout.split('\n') if 'FAILED' in x][0])
    finally:
        sh(f'git -C {REPO} checkout -- .')
    print(' | '.join(out), flush=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for id in args or sorted(os.listdir(f'{VERIF}/seeded')):
        verify(id, stable='--nostable' not in sys.argv)
