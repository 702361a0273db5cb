"""C26: pipelines run remotely or under sudo behave as if run locally."""
import contextlib
import os
import pathlib
import re

import hypothesis.strategies as st

from harness import mar, ops, remote, trees
from harness.core import check, short
from harness.gens import pipelines

ADDRS = ['127.0.0.1', '127.0.0.2', '10.1.2.3', '::1', 'fe80::1:2']


def setup(cx):
    # The process that runs farcel.py must not have used marcel.
    remote.remote(cx.scratch)


class Cli(ops.Cli):
    """Variables of the session aren't sent, so values are written down in the pipeline."""

    def source(self, rows):
        return f'gen {len(rows)} | map (i: {list(rows)!r}[i])' if rows else 'gen 1 | select (x: False)'


def cluster(addrs, user='u', identity='/id'):
    from marcel.object.cluster import Cluster
    hosts = [a if p == 22 else (a, p) for a, p in addrs]
    return Cluster(user, hosts=hosts, identity=identity) if len(hosts) != 1 else Cluster(user, host=hosts[0], identity=identity)


UNRESOLVED = 'nosuch.invalid'  # Not the name of any host


def key(host):
    if host.host == UNRESOLVED:
        return UNRESOLVED, int((str(host) + ':22').split(':')[1])
    return host.addr, host.port or 22


def label(addr, port):
    return addr if port == 22 else f'{addr}:{port}'


def per_host(cx, result, what):
    """Output and errors by host, each in order."""
    from marcel.object.cluster import Host
    by_host = {}
    for x in result.raw:
        if isinstance(x, (tuple, list)):
            cx.true(len(x) > 0 and type(x[0]) is Host, f'{what}: {short(x)} is not labelled with its host')
            by_host.setdefault(key(x[0]), []).append(type(x)(x[1:]))
        else:
            cx.true(type(x.label) is Host, f'{what}: {short(x)} is not labelled with its host: {x.label}')
            by_host.setdefault(key(x.label), []).append((mar.ERROR, x.message))
    return by_host


def run(s, text):
    """As eval, with the labels of errors."""
    import marcel.object.error
    old = mar.plain
    raw = []
    mar.plain = lambda x: raw.append(x) or old(x)
    try:
        result = s.eval(text)
    finally:
        mar.plain = old
    result.raw = raw
    return result


def expected_of(local):
    """What the pipeline produces, run locally. If it is killed, the reason is an error as well."""
    out = list(local.out)
    if local.killed is not None and not local.killed.startswith('KillAndResume'):
        out.append((mar.ERROR, local.killed))
    return out


@st.composite
def differential_cases(draw):
    kind = draw(st.sampled_from(['modelled', 'modelled', 'modelled', 'other']))
    if kind == 'modelled':
        pipeline = Cli().pipeline(draw(pipelines()))
    else:
        pipeline = draw(st.sampled_from(OTHER))
    return pipeline, draw(st.sampled_from(['sudo', 'remote', 'remote 2'])), draw(st.sampled_from(['literal', 'variable', 'operator', 'string'])), draw(st.booleans())


OTHER = [
    '(1 / 0)', 'map (1 / 0)', 'gen 3 | map (x: 1 / x) | reverse', 'gen 3 -1 | (x: 5 / x) | red +', 'ls /nosuchfile', 'ls /nosuchfile | map (f: f.size)',
    'gen 3 | nosuchop', 'head 0', 'gen 3 | head 0', 'gen 3 | red', "bash 'echo a b; echo c >&2; exit 3'", 'gen 3 | bash cat', "bash 'printf %s x; printf y'",
    'gen 3 | write', 'gen 5 | write /tmp/nosuchdir/x', 'read /nosuchfile', 'gen 3 | map (x: undefined_variable)', 'gen 3 | (x: open)', 'gen 4 | map (x: (x, open("/dev/null") if x == 2 else str(x)))',
    'gen 3 | (x: lambda y: y)', "gen 3 | map (x: 'é' * x)", 'gen 3 | map (x: chr(0xdc80 + x))', 'gen 2 | map (x: b"\\x80\\xff" * x)', 'gen 2 | map (x: [x, [x, None], {x: (x,)}])',
    'gen 300 | map (x: "x" * 1000)', 'gen 5 | map (x: o(a=x, b=str(x))) | (x: (x.a, x.b))', 'fork 2 (| gen 2 |) | sort', 'fork 3 (| t: (t) |) | sort', "gen 3 | fork 2 (| gen 1 |)",
    'gen 3 1 | args (| n: gen (n) |)', 'gen 6 | case (x: x % 2 == 0) (| (x: (x, 1)) |) (| (x: (x, 0)) |)', 'gen 3 > v', 'gen 3 | sort (x: 1 / x)',
    'gen 3 | window (x: 1 / x)', 'echo hello', 'echo hello | map (x: x.upper())', 'gen 3 | nosuchexecutable', 'cd /', 'cd /nosuchdir', 'gen 3 | map (x: [][x])', 
    'gen 3 | map (x: raise_it())', 'gen 3 | trace on', 'version', 'gen 3 | select (x: pos() == 1)', 'gen 3 | expand', 'gen 3 | (x: (x, [1, 2])) | expand 1', 'gen 4 | tee (| red + |) (| red count |)',
    'gen 3 | upload x', 'gen 3 | red . | head 1', 'gen 5 | pos', 'read x y z', 'import math', 'gen 3 | filter -k (| gen 2 |)', 'gen 3 | join -k (| (2, 3) |)', 'gen 1 | args --all (| a: (len(a)) |)', 'stack', 'jobs', '(lambda: parse_args)', "gen 3 | (x: (yrast(x)))", 'gen 2 | (x: None)', 'gen 2 | (x: ())']


def comparable(x):
    """Text of objects may have addresses."""
    return re.sub('0x[0-9a-f]+', '0x', repr(x))


@check('differential', differential_cases, quick=450, thorough=15000, shards=(6, 8), timeout=60, setup=setup, rule='the pipeline has output or errors')
def differential(case, cx):
    """The same pipeline run locally, by sudo and by remote."""
    text, how, form, initialized = case
    r = remote.remote(cx.scratch)
    s = mar.Session(config='')
    addrs = [('127.0.0.1', 22)] + ([('10.1.2.3', 99)] if how == 'remote 2' else [])
    for a in [(None,)] if how == 'sudo' else addrs:
        # The user on the other side may never have used marcel before.
        r.add_host(*a, startup='' if initialized else None)
    s.set('C', cluster(addrs))
    local = s.eval(text)
    expected = expected_of(local)
    arg = f'(| {text} |)'
    if form == 'variable':
        out = s.eval(f'P = {arg}')
        if out.killed is not None:
            cx.label('not stored')
            return
        arg = 'P'
    command = f'sudo {arg}' if how == 'sudo' else f'@C {arg}' if form == 'operator' else f'remote C {arg}' if form != 'string' else f'remote "C" {arg}'
    result = run(s, command)
    if local.killed is not None and result.killed == local.killed and not local.out:
        # E.g. a parsing error
        cx.label('killed')
        return
    cx.eq(result.killed, None, f'{command}: killed')
    cx.nontrivial(len(expected) > 0)
    cx.label(how)
    what = f'{command}: local: {short(expected)}, killed {local.killed!r}, {local.stderr!r}; stderr {result.stderr!r}'
    if how == 'sudo':
        outputs = {(None, 22): result.out}
    else:
        outputs = per_host(cx, result, what)
        cx.eq(sorted(outputs), sorted(addrs if expected else []), f'{what}: hosts')
    for host, output in outputs.items():
        cx.eq([comparable(x) for x in output], [comparable(x) for x in expected], f'{what}: {host}')


# Several hosts, each with a configuration of its own

@st.composite
def host_cases(draw):
    addrs = draw(st.lists(st.tuples(st.sampled_from(ADDRS), st.sampled_from([22, 22, 23, 2222])), min_size=1, max_size=4, unique=True))
    hosts = [(a, p, draw(st.integers(-3, 9)), draw(st.sampled_from(['ok'] * 6 + ['refused', 'noise', 'slow', 'late', 'cut', 'startup', 'printing', 'missing']))) for a, p in addrs]
    body = draw(st.sampled_from(list(BODIES)))
    if draw(st.integers(0, 5)) == 0:
        i = draw(st.integers(0, len(hosts) - 1))
        hosts[i] = (UNRESOLVED, hosts[i][1], hosts[i][2], 'unresolved')
    return hosts, body, draw(st.integers(0, 4)), draw(st.sampled_from(['none', 'none', 'red', 'select', 'map', 'count'])), draw(st.sampled_from(['u', 'some user', 'é'])), draw(st.sampled_from(['/id', '/a b/id', "/it's", '~/$x'])), draw(st.sampled_from([('@C', '(| {} |)'), ('@ C', '(| {} |)'), ('remote C', '(| {} |)'), ('remote C', 'P'), ('remote CV', 'P')]))


# name: (pipeline, the output for a host's value of NODE, and n)
BODIES = {
    'node': ('(NODE)', lambda node, n: [(node,)]),
    'gen': ('gen {n1} | map (x: (x, twice(NODE)))', lambda node, n: [(x, 2 * node) for x in range(n + 1)]),
    'error': ('gen {n1} | map (x: 12 / (x - NODE))', lambda node, n: [(12 / (x - node),) if x != node else None for x in range(n + 1)]),
    'case': ('gen {n1} | case (x: x % 2 == NODE % 2) (| map (x: (x, NODE)) |)', lambda node, n: [(x, node) for x in range(n + 1) if x % 2 == node % 2]),
    'print': ('gen {n1} | map (x: (print(x), x)) | (n, x: x)', lambda node, n: [(x,) for x in range(n + 1)]),
    'write': ('gen {n1} | write', lambda node, n: [(x,) for x in range(n + 1)]),
    'files': ('ls -f . | map (f: f.name) | select (f: f != "fail") | sort', lambda node, n: [(f'f{i}',) for i in range(max(node, 0))]),
    'executable': ('echo hello world', lambda node, n: [('hello world',)]),
    'large': ('gen {n1} | map (x: (x, str(NODE) * 40000))', lambda node, n: [(x, str(node) * 40000) for x in range(n + 1)]),
    'lists': ('gen {n1} | map (x: [x, [NODE]])', lambda node, n: [[x, [node]] for x in range(n + 1)]),
    'unsendable': ('gen {n1} | map (x: (x, (y for y in [])) if x == NODE else ("text", "text", x))', lambda node, n: [('text', 'text', x) if x != node else None for x in range(n + 1)]),
    'nothing': ('gen {n1} | select (x: False)', lambda node, n: []),
    'fork': ('fork 2 (| i: gen 1 | map (x: (i, NODE)) |) | sort', lambda node, n: [(0, node), (1, node)]),
    'bash': ("bash 'echo $HOME | sed s,.*/,,'", lambda node, n: [(n,)]),
}
FAILS = {
    'refused': 'echo "connection refused" >&2; exit 255\n',
    'noise': 'echo "Welcome, it is 5 o\'clock. \\200" >&2\n',
    'slow': 'sleep 0.2\n',
    'late': '{ cat; sleep 0.3; } | sh -c "$*"; exit\n',    # The end of input is noticed after the pipeline has started
    'cut': 'sh -c "$*" | head -c 9; exit 1\n',
}


@check('hosts', host_cases, quick=350, thorough=12000, shards=(6, 8), timeout=60, setup=setup, rule='at least two hosts, or a failing host, and output')
def hosts(case, cx):
    """A cluster, some hosts of which fail."""
    from marcel.object.cluster import Host
    hosts, body, n, downstream, user, identity, (op, arg) = case
    r = remote.remote(cx.scratch)
    s = mar.Session(config='')
    for a, p, node, how in hosts:
        if how not in ('missing', 'unresolved'):
            startup = f'NODE = {node}\ndef twice(x):\n    return x * 2\n' + ('x = 1 / 0\n' if how == 'startup' else 'print("printed")\n' if how == 'printing' else '')
            home = r.add_host(a, p, startup, FAILS.get(how))
            for i in range(node):
                open(f'{home}/f{i}', 'w').close()
    s.set('C', cluster([(a, p) for a, p, _, _ in hosts], user, identity))
    s.set('CV', s.get('C'))
    text, expected_out = BODIES[body]
    text = text.replace('{n1}', str(n + 1))
    if arg == 'P':
        cx.eq(s.eval(f'P = (| {text} |)').killed, None, f'P = (| {text} |)')
    command = f'{op} {arg.format(text)}'
    expected = {}
    for a, p, node, how in hosts:
        if how in ('ok', 'noise', 'slow', 'late', 'printing'):
            out = [(f'{a}_{p}',)] if body == 'bash' else expected_out(node, n)
            if out:
                expected[a, p] = out
        elif how == 'unresolved':
            expected[a, p] = [None]
    if downstream != 'none':
        command += {'red': ' | (h, *x: (h, 1)) | red . +', 'select': ' | select (h, *x: h.addr == "127.0.0.1")', 'map': ' | map (h, *x: (h, len(x), h.name))', 'count': ' | map (*x: 1) | red +'}[downstream]
    result = run(s, command)
    what = f'{command} on {hosts}: stderr {short(result.stderr)}'
    cx.label(downstream)
    cx.label(body)
    cx.eq(result.killed, None, f'{what}: killed')
    cx.nontrivial((len(hosts) > 1 or hosts[0][3] != 'ok') and len(expected) > 0)
    cut = {(a, p) for a, p, _, how in hosts if how == 'cut'}
    # ssh is used once per host
    cx.eq(r.calls(), sorted(['ssh', '-i', identity] + (['-p', str(p)] if p != 22 else []) + [f'{user}@{a}', 'farcel.py'] for a, p, _, how in hosts if how != 'unresolved'), f'{what}: calls of ssh')
    if downstream == 'count':
        values = [x for x in result.raw if isinstance(x, (tuple, list))]
        n_out = sum(1 for out in expected.values() for x in out if x is not None)
        if not cut:
            cx.eq(values, [(n_out or None,)], f'{what}: output')
        return
    by_host = per_host(cx, result, what)
    # A cluster can be shown, even if a host is unknown
    shown = s.command('(C)')
    cx.true(shown[0].startswith(f'Cluster({user} @ [') and not shown[1] and all(a in shown[0] for a, _, _, _ in hosts), f'{what}: (C) shows {shown}')
    for host in list(by_host):
        if host in cut:
            # What is lost can't be determined. But it doesn't go unnoticed.
            cx.true(downstream != 'none' or any(mar.is_error(x) for x in by_host[host]), f'{what}: {host}: {short(by_host[host])}')
            del by_host[host]
    if downstream == 'red':
        # Errors come first
        expected = {h: [x for x in out if x is None] + [(sum(1 for x in out if x is not None),)] * any(x is not None for x in out) for h, out in expected.items()}
    elif downstream == 'select':
        expected = {h: [x for x in out if x is None or h[0] == '127.0.0.1'] for h, out in expected.items()}
    elif downstream == 'map':
        expected = {h: [(len(x), h[0]) if x is not None else None for x in out] for h, out in expected.items()}
    expected = {h: out for h, out in expected.items() if out}
    cx.eq(sorted(by_host), sorted(expected), f'{what}: hosts')
    for h, out in expected.items():
        got = [None if mar.is_error(x) else x for x in by_host[h]]
        if downstream == 'red':
            got.sort(key=lambda x: x is not None)
        cx.eq(got, out, f'{what}: {h}')


# Files

CLUSTER_NAMES = ['a', 'b', 'ab', '.h', 'a b', '[a]', '*', 'é', 'x.txt', "it's", '$x', '"q"', 'a;b', '{x}', '?', 'a:b', 'a\\b', '~', 'x@y', '&', '(a)', '#', '\n']
DIRS = ['/t', '/up dir', "/it's", '/$x', '/a:b', '/é', '/[t]', '/*', '/d/e', '/~', '/"q"']
USERS = ['u', 'some user', 'é']
IDENTITIES = ['/id', '/some id', "/it's", '/$x']


def files_only(entries):
    """Without links, which scp follows."""
    links = [p for p, kind, _ in entries if kind == 'link']
    return [e for e in entries if e[1] != 'link' and not any(e[0].startswith(p + '/') for p in links)]


@st.composite
def cluster_cases(draw, unique_by=None):
    hosts = draw(st.lists(st.tuples(st.sampled_from(ADDRS), st.sampled_from([22, 22, 23, 2222])), min_size=1, max_size=3, unique_by=unique_by or (lambda h: h)))
    return [(a, p, draw(st.sampled_from(['ok', 'ok', 'ok', 'ok', 'missing', 'nodir']))) for a, p in hosts], draw(st.sampled_from(USERS)), draw(st.sampled_from(IDENTITIES))


@st.composite
def uploads(draw):
    entries = files_only(draw(trees.trees(CLUSTER_NAMES, special=False, locked=False)))
    cwd = draw(st.sampled_from([''] + [e[0] for e in entries if e[1] == 'dir']))
    args = draw(trees.arguments(entries, cwd, sizes=(1, 1, 2, 3)))
    return entries, cwd, args, draw(cluster_cases()), draw(st.sampled_from(DIRS)), draw(st.sampled_from(['quoted', 'bare', 'value', 'path', 'file']))


def contents(top):
    """Relative paths, with the contents of files"""
    found = {}
    for dir, dirs, files in os.walk(top):
        for name in dirs:
            found[os.path.relpath(f'{dir}/{name}', top)] = None
        for name in files:
            with open(f'{dir}/{name}', 'rb') as f:
                found[os.path.relpath(f'{dir}/{name}', top)] = f.read()
    return sorted(found.items())


def bare(name):
    return ''.join(c if c in '/.-_' or c.isalnum() else '\\' + c for c in name)


def scratch_files(cx, s, cwd, entries):
    home = str(cx.scratch) + '/home'
    root = f'{home}/t'
    mar.reset_home(home)
    trees.build(root, entries)
    for path, kind, n in entries:
        if kind == 'file':
            with open(f'{root}/{path}', 'w') as f:
                f.write(path * n)
    return root, os.path.normpath(f'{root}/{cwd}')


@check('upload', uploads, quick=350, thorough=12000, shards=(4, 6), timeout=60, setup=setup, rule='a file with special characters, or a directory, is copied to at least one host')
def upload(case, cx):
    import marcel.object.file
    entries, cwd, args, (hosts, user, identity), dir, dir_form = case
    r = remote.remote(cx.scratch)
    s = mar.Session(config='')
    root, here = scratch_files(cx, s, cwd, entries)
    texts, selected = trees.argument_texts(s, root, here, args)
    selected = list(dict.fromkeys(os.path.normpath(x) for x in selected))
    names = [os.path.basename(x) for x in selected]
    if len(set(names)) < len(names):
        return cx.label('files of the same name')
    if any(os.path.commonpath([root, x]) != root for x in selected):
        return cx.label('not in the tree')
    for a, p, how in hosts:
        if how != 'missing':
            host = r.add_host(a, p)
            os.makedirs(f'{host}/root')
            if how == 'ok':
                os.makedirs(f'{host}/root{dir}/already there')
    s.set('C', cluster([(a, p) for a, p, _ in hosts], user, identity))
    s.set('D', pathlib.Path(dir) if dir_form == 'path' else marcel.object.file.File(pathlib.Path(dir)) if dir_form == 'file' else dir)
    text = f'upload C {trees.quote(dir) if dir_form == "quoted" else bare(dir) if dir_form == "bare" else "(D)"} {" ".join(texts)}'
    before = contents(root)
    s.env.dir_state().change_current_dir(here)
    result = s.eval(text)
    what = f'{text}: {result.out} {result.killed!r} {short(result.stderr)}'
    cx.eq(contents(root), before, f'{what}: local files')
    if not selected:
        cx.true(result.killed is not None, f'{what}: should fail')
        cx.eq(r.calls(), [], f'{what}: scp')
        return
    cx.eq(result.killed, None, what)
    calls = r.calls()
    cx.eq(len(calls), len(hosts), f'{what}: calls of scp {calls}')
    check_calls(cx, calls, hosts, user, identity, what)
    for a, p, how in hosts:
        expected = {}
        if how == 'ok':
            below = {'already there': None}
            for x in selected:
                below[os.path.basename(x)] = None
                if os.path.isdir(x):
                    below.update({f'{os.path.basename(x)}/{k}': v for k, v in contents(x)})
                else:
                    with open(x, 'rb') as f:
                        below[os.path.basename(x)] = f.read()
            expected = {f'{dir[1:]}/{k}': v for k, v in below.items()}
            expected.update({d[1:]: None for d in (dir, os.path.dirname(dir)) if d != '/'})
        if how != 'missing':
            cx.eq(contents(f'{r.hosts}/{a}_{p}/root'), sorted(expected.items()), f'{what}: {a} {p}')
    failing = [h for h in hosts if h[2] != 'ok']
    # The output is empty, except for errors
    cx.true(all(mar.is_error(x) for x in result.out), what)
    cx.eq(len(result.out), len(failing), f'{what}: errors')
    cx.label(f'{len(hosts)} hosts')
    cx.nontrivial(len(failing) < len(hosts) and (any(os.path.isdir(x) for x in selected) or any(not re.fullmatch('[a-z.]*', n) for n in names)))


def check_calls(cx, calls, hosts, user, identity, what):
    """How scp is told about identities, ports and users"""
    for a, p, how in hosts:
        flags = ['-i', identity] + ([] if p == 22 else ['-P', str(p)])
        prefix = f'{user}@[{a}]:' if ':' in a else f'{user}@{a}:'
        cx.true(any(c[0] == 'scp' and c[-len(c) + 2:][:len(flags)] == flags and any(x.startswith(prefix) for x in c) for c in calls), f'{what}: no call with {flags} {prefix}: {calls}')


@st.composite
def downloads(draw):
    cluster = draw(cluster_cases(unique_by=lambda h: h[0]))
    entries = [files_only(draw(trees.trees(CLUSTER_NAMES, special=False, locked=False))) for _ in cluster[0]]
    paths = sorted({e[0] for es in entries for e in es} | {'missing'})
    args = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from('qqggvpF'))
        path = draw(st.sampled_from(paths))
        if kind in 'gv' and draw(st.booleans()):
            parts = path.split('/')
            parts[draw(st.integers(0, len(parts) - 1))] = draw(st.sampled_from(trees.COMPONENTS))
            path = '/'.join(parts)
        args.append((kind, path))
    return cluster, entries, args, draw(st.sampled_from(DIRS)), draw(st.sampled_from(['quoted', 'bare', 'value', 'path', 'file'])), draw(st.sampled_from(['rel', 'abs', 'home']))


@check('download', downloads, quick=350, thorough=12000, shards=(4, 6), timeout=60, setup=setup, rule='a file with special characters, or a directory, is copied from at least one host')
def download(case, cx):
    import marcel.object.file
    (hosts, user, identity), entries, args, dir, dir_form, dir_where = case
    r = remote.remote(cx.scratch)
    s = mar.Session(config='')
    root, here = scratch_files(cx, s, '', [])
    local = root + dir
    os.makedirs(f'{local}/already there')
    tops = []
    for (a, p, how), es in zip(hosts, entries):
        if how != 'missing':
            host = r.add_host(a, p)
            os.makedirs(f'{host}/root')
            trees.build(f'{host}/root/t', es)
            for path, kind, n in es:
                if kind == 'file':
                    with open(f'{host}/root/t/{path}', 'w') as f:
                        f.write(a + path * n)
            tops.append(f'{host}/root')
        else:
            tops.append(None)
    texts = []
    for i, (kind, path) in enumerate(args):
        if kind in 'pF':
            if trees.magic(path):
                return cx.label('Whether a Path or File can be a pattern is unspecified')
            s.set(f'V{i}', pathlib.Path('/t/' + path) if kind == 'p' else marcel.object.file.File(pathlib.Path('/t/' + path)))
        elif kind == 'v':
            if '\\' in path:
                return cx.label('backslash in a pattern')
            s.set(f'V{i}', '/t/' + path)
        elif '\\' in path:
            return cx.label('backslash in a pattern')
        texts.append(trees.quote('/t/' + path) if kind == 'q' else f'(V{i})' if kind in 'vpF' else ''.join(c if c in '*?[]!~/.-' or c.isalnum() else '\\' + c for c in '/t/' + path))
    dir_text = dir[1:] if dir_where == 'rel' else local if dir_where == 'abs' else f'~/t{dir}'
    if dir_where == 'rel' and dir == '/~':
        return cx.label('~')
    s.set('D', pathlib.Path(dir_text) if dir_form == 'path' else marcel.object.file.File(pathlib.Path(dir_text)) if dir_form == 'file' else dir_text)
    text = f'download {trees.quote(dir_text) if dir_form == "quoted" else bare(dir_text).replace(chr(92) + "~/t", "~/t") if dir_form == "bare" else "(D)"} C {" ".join(texts)}'
    s.set('C', cluster([(a, p) for a, p, _ in hosts], user, identity))
    s.env.dir_state().change_current_dir(here)
    before = [None if top is None else contents(top) for top in tops]
    result = s.eval(text)
    what = f'{text}: {result.out} {result.killed!r} {short(result.stderr)}'
    cx.eq([None if top is None else contents(top) for top in tops], before, f'{what}: remote files')
    cx.eq(result.killed, None, what)
    calls = r.calls()
    cx.eq(len(calls), len(hosts), f'{what}: calls of scp {calls}')
    check_calls(cx, calls, hosts, user, identity, what)
    expected = {'already there': None}
    n_errors = interesting = 0
    for (a, p, how), top in zip(hosts, tops):
        expected[a] = None
        sources = []
        for kind, path in args:
            found = [] if top is None else trees.expand_from(f'{top}/t', path.split('/')) if kind in 'gv' else trees.literal(f'{top}/t/{path}')
            if kind in 'gv':
                # As a shell does, a pattern doesn't match hidden files
                found = [x for x in found if all(not n.startswith('.') or q.startswith('.') for n, q in zip(os.path.relpath(x, f'{top}/t').split('/'), path.split('/')))]
            found = [x for x in found if os.path.lexists(x)]
            n_errors += not found and top is not None
            sources += found
        n_errors += top is None
        names = [os.path.basename(x) for x in dict.fromkeys(sources)]
        if len(set(names)) < len(names):
            return cx.label('files of the same name')
        for x in sources:
            base = f'{a}/{os.path.basename(x)}'
            expected[base] = None
            interesting += os.path.isdir(x) or not re.fullmatch('[a-z.]*', os.path.basename(x))
            if os.path.isdir(x):
                expected.update({f'{base}/{k}': v for k, v in contents(x)})
            else:
                with open(x, 'rb') as f:
                    expected[base] = f.read()
    cx.eq(contents(local), sorted(expected.items()), f'{what}: downloaded')
    cx.true(all(mar.is_error(x) for x in result.out), what)
    # Lines of messages become errors
    cx.eq(sum(1 for x in result.out if x[1].startswith('scp:')), n_errors, f'{what}: errors')
    cx.label(f'{len(hosts)} hosts')
    cx.nontrivial(interesting > 0)


# API, and arguments of sudo

def modelled(p):
    try:
        return list(ops.model(p))
    except ops.ModelKill:
        return None


@check('api', lambda: st.tuples(pipelines(max_ops=3, modelled=True), st.sampled_from(['sudo', 'remote', 'remote 2']), st.booleans(), st.lists(st.sampled_from(['-E', '-n', '-u', 'X=1', 'é', 'a b']), max_size=3)),
       quick=200, thorough=8000, shards=(4, 8), timeout=60, setup=setup, rule='the pipeline has output or errors')
def in_api(case, cx):
    """The same, in Python."""
    mar.api_session()
    import marcel.api as api
    p, how, iterated, args = case
    expected = modelled(p)
    if expected is None or 'pos' in repr(p):
        return
    r = remote.remote(cx.scratch)
    addrs = [('127.0.0.1', 22)] + ([('10.1.2.3', 99)] if how == 'remote 2' else [])
    for a in [(None,)] if how == 'sudo' else addrs:
        r.add_host(*a)
    args = [x for a in args for x in ([a, 'some user'] if a == '-u' else [a] if a[0] == '-' or '=' in a else [])]
    # Child processes write to stderr
    with open(f'{cx.scratch}/stderr', 'w+') as err, contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
        remotely = api.sudo(ops.Api().pipeline(p), *args) if how == 'sudo' else api.remote(cluster(addrs), ops.Api().pipeline(p))
        raw = list(remotely) if iterated else api.gather(remotely, unwrap_singleton=False)
        err.seek(0)
        stderr = err.read()
    what = f'{case}: {short(raw)} {stderr!r}'
    if how == 'sudo':
        cx.eq(r.calls(), [['sudo'] + args + ['farcel.py']], what)
        outputs = [[mar.plain(x) for x in raw]]
    else:
        # Singletons are unwrapped
        raw = [x if isinstance(x, (tuple, list)) or mar.is_error(mar.plain(x)) else (x,) for x in raw]
        outputs = []
        for a in addrs:
            outputs.append([(mar.ERROR, x.message) if mar.is_error(mar.plain(x)) else mar.plain(x[1:]) for x in raw if key(x.label if mar.is_error(mar.plain(x)) else x[0]) == a])
        cx.eq(sum(map(len, outputs)), len(raw), f'{what}: hosts')
    for output in outputs:
        cx.eq(len(output), len(expected), what)
        values = [x for x in output if not mar.is_error(x)]
        events = [x for x in expected if not isinstance(x, ops.Err)]
        if iterated and how == 'sudo':
            # Singletons are unwrapped
            events = [x[0] if len(x) == 1 else x for x in events]
        elif iterated:
            events = [x if len(x) else () for x in events]
        ops.compare(values, events, ops.bag_only(p[1]), what)
    cx.eq(stderr, '', what)
    cx.label(how)
    cx.nontrivial(len(expected) > 0)


WORDS = ['-u', '-E', '-n', '--', '--preserve-env=A,B', 'X=1', 'some user', "it's", '$HOME', '"q"', 'é', '*', 'a;b', '`x`', '~', '\\', '#x', '-g', '> f', '|', '(a)', ' ', '[x]', '\t']


@check('sudo', lambda: st.tuples(st.lists(st.tuples(st.sampled_from(WORDS), st.sampled_from(['quoted', 'escaped'])), max_size=6), st.booleans()),
       quick=200, thorough=6000, shards=(2, 8), timeout=60, setup=setup, rule='an argument with special characters')
def sudo(case, cx):
    """Arguments are passed to sudo exactly."""
    args, stored = case
    r = remote.remote(cx.scratch)
    r.add_host(None)
    # Records the call, and does nothing
    with open(f'{r.bin}/sudo', 'w') as f:
        f.write(('#!/bin/sh\n' + remote.RECORD).replace('@LOG@', r.log))
    try:
        s = mar.Session(config='')
        texts = []
        for word, form in args:
            texts.append(trees.quote(word) if form == 'quoted' else ''.join(c if c.isalnum() or c == '-' else '\\' + c for c in word))
        s.set('ran', [])
        pipeline = '(| gen 3 | map (x: ran.append(x)) |)'
        if stored:
            cx.eq(s.eval(f'P = {pipeline}').killed, None)
            pipeline = 'P'
        text = f'sudo {" ".join(texts)} {pipeline}'
        result = s.eval(text)
        cx.eq((result.out, result.killed, result.stderr), ([], None, ''), text)
        cx.eq(r.calls(), [['sudo'] + [w for w, _ in args] + ['farcel.py']], text)
        cx.eq(s.get('ran'), [], f'{text}: executed locally')
        cx.nontrivial(any(not w.isalnum() and w[0] != '-' for w, _ in args))
    finally:
        r.script('sudo', remote.SUDO)


INVALID = ['upload C rel {f}', 'upload C ./rel {f}', "upload C '' {f}", 'upload C (D) {f}', 'upload C . {f}', 'upload C /t', 'upload C', 'upload NOTC /t {f}', 'upload 5 /t {f}',
           'download . C', 'download . NOTC /t', 'download', 'download nosuchdir C /t', 'download {f} C /t',
           'remote NOTC (| gen 3 |)', 'remote C', 'remote C (| a: gen 3 |)', 'remote C (| gen 3 |) 5', 'gen 3 | remote C (| gen 3 |)', 'remote (| gen 3 |)',
           'sudo', 'sudo -u root', 'sudo (| gen 3 |) (| gen 4 |)', 'sudo gen 3']


@check('invalid', lambda: st.tuples(st.sampled_from(INVALID), st.sampled_from(['f', '*', "'a b'"])), quick=100, thorough=1000, shards=(2, 4), timeout=60, setup=setup, rule='every case')
def invalid(case, cx):
    """Commands which are not valid: rejected without starting ssh, scp or sudo."""
    command, f = case
    r = remote.remote(cx.scratch)
    s = mar.Session(config='')
    root, here = scratch_files(cx, s, '', [('f', 'file', 3), ('a b', 'file', 2)])
    r.add_host('127.0.0.1', 22)
    s.set('C', cluster([('127.0.0.1', 22)], 'u', '/id'))
    s.set('NOTC', 'x')
    s.set('D', pathlib.Path('rel'))
    before = contents(root)
    s.env.dir_state().change_current_dir(here)
    text = command.format(f=f)
    result = s.eval(text)
    cx.true(result.killed is not None, f'{text}: {result.out} {short(result.stderr)}')
    cx.eq(result.values, [], f'{text}: output')
    cx.eq(r.calls(), [], f'{text}: calls')
    cx.eq(contents(root), before, f'{text}: local files')
    cx.nontrivial()
