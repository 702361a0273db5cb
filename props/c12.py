"""C12: flags in any order and spelling; invalid usage is rejected before anything runs."""
import os
import pathlib
import sys

import hypothesis.strategies as st

from harness import mar
from harness.core import check
from harness.vals import same

# A flag: short, long, value (None: no value; else: values), optional (the value may be omitted), bad (ill-typed values)


class Flag(object):

    def __init__(self, short, long, values=None, optional=False, bad=(), name=None):
        self.short = short
        self.long = long
        self.values = values
        self.optional = optional
        self.bad = bad
        self.name = name or (long or short).lstrip('-')

    def spellings(self):
        return [x for x in (self.short, self.long) if x]


class Anon(object):

    def __init__(self, values, optional=False, many=None, bad=(), always=False, none=False):
        self.none = none
        self.values = values
        self.always = always
        self.optional = optional
        self.many = many  # (min, max): a list
        self.bad = bad


class Spec(object):

    def __init__(self, op, flags=(), anons=(), exclusive=(), exactly_one=(), before='', after='', run=True, unknown=True, requires=()):
        self.op = op
        self.flags = flags
        self.anons = anons
        self.exclusive = [set(x) for x in exclusive]  # Sets of names of which at most one can be specified
        self.exactly_one = exactly_one and set(exactly_one)
        self.before = before
        self.after = after
        self.run = run  # Executable, so that results can be compared
        self.unknown = unknown  # Anything starting with - can be rejected
        self.requires = requires  # [(flag, flags, one of which is needed for the command to work)]


INTS = ['0', '1', '2', '3', '5']
BAD_INTS = ['abc', '1.5', '"x y"', "''", '1x']
FUNCTIONS = ['(x: x)', '(lambda x: (x, 1))', 'INC', '(x: -x)']
BAD_FUNCTIONS = ['abc', '"x + 1"', "''"]
PIPES = ['(| gen 3 |)', '(| gen 2 1 | map (x: x * 2) |)', 'P']
BAD_PIPES = ['abc', '(3)', "'gen 3'", '(None)']
G = 'gen 4 | map (x: (x % 3, x))'
FILES = ['a', 'b.csv', 'd', '"d/e e"', '*', 'd/*', '.']
DEPTH = [Flag('-0', None, name='0'), Flag('-1', None, name='1'), Flag('-r', '--recursive')]


def F(short, long, *args, **kw):
    return Flag(short, long, *args, **kw)


SPECS = [
    Spec('args', [F('-a', '--all')], [Anon(['(| x: gen 2 |)', 'P1'], bad=BAD_PIPES)], before='gen 3'),
    Spec('case', [], [Anon(['(x: x > 1)', '(x: True)'] , bad=BAD_FUNCTIONS[:2]), Anon(['(| map (x: -x) |)', 'NEG'], bad=['abc'])], before='gen 3', unknown=False),
    Spec('difference', [], [Anon(['(| gen 2 |)', 'P'], bad=BAD_PIPES)], before='gen 4'),
    Spec('intersect', [], [Anon(['(| gen 2 |)', 'P'], many=(1, 3), bad=BAD_PIPES)], before='gen 4'),
    Spec('union', [], [Anon(['(| gen 2 |)', 'P'], many=(1, 3), none=True, bad=BAD_PIPES)], before='gen 4'),
    Spec('join', [F('-k', '--keep')], [Anon(['(| gen 2 | map (x: (x, 7)) |)', 'P'], bad=BAD_PIPES)], before='gen 4'),
    Spec('filter', [F('-k', '--keep'), F('-d', '--discard'), F('-c', '--compare', FUNCTIONS)], [Anon(PIPES, bad=BAD_PIPES)],
         exclusive=[('keep', 'discard')], before='gen 4'),
    Spec('expand', [], [Anon(['0', '1', '2'], optional=True, bad=BAD_INTS)], before='gen 3 | map (x: (x, (x, [x])))'),
    Spec('gen', [F('-p', '--pad', INTS[4:] + ['8'], bad=BAD_INTS)], [Anon(INTS[1:], optional=True, always=True, bad=BAD_INTS), Anon(['0', '3', '9'], optional=True, bad=BAD_INTS)], after='head 6'),
    Spec('head', [], [Anon(INTS + ['-1', '-2'], bad=BAD_INTS)], before='gen 4'),
    Spec('tail', [], [Anon(INTS + ['-1', '-2'], bad=BAD_INTS)], before='gen 4'),
    Spec('map', [], [Anon(FUNCTIONS, bad=BAD_FUNCTIONS)], before='gen 4'),
    Spec('select', [], [Anon(['(x: x > 1)', '(lambda x: x)', 'INC'], bad=BAD_FUNCTIONS)], before='gen 4'),
    Spec('sort', [], [Anon(FUNCTIONS, optional=True, bad=BAD_FUNCTIONS)], before='gen 4'),
    Spec('squish', [], [Anon(['+', 'max', 'min', '(x, y: x)'], optional=True, bad=BAD_FUNCTIONS)], before=G),
    Spec('red', [F('-i', '--incremental')], [Anon(['+', 'max', '.', '(x, y: y)', 'count'], many=(1, 2), none=True, bad=BAD_FUNCTIONS)], before=G),
    Spec('reverse', [], [], before='gen 4'),
    Spec('unique', [F('-c', '--consecutive')], [], before='gen 6 | map (x: x // 2 % 2)'),
    Spec('window', [F('-o', '--overlap', INTS[1:], bad=BAD_INTS), F('-d', '--disjoint', INTS[1:], bad=BAD_INTS)], [Anon(['(x: x % 2 == 0)', '(x: False)'], optional=True, bad=BAD_FUNCTIONS)],
         exactly_one=('overlap', 'disjoint', 'anon0'), before='gen 7'),
    Spec('ls', DEPTH + [F('-f', '--file'), F('-d', '--dir'), F('-s', '--symlink')], [Anon(FILES, many=(0, 2))], exclusive=[('0', '1', 'recursive')], after='map (f: str(f))'),
    Spec('read', DEPTH + [F('-c', '--csv'), F('-t', '--tsv'), F('-h', '--headings'), F('-s', '--skip-headings'), F('-p', '--pickle'), F('-j', '--json'), F('-l', '--label')],
         [Anon(FILES, many=(1, 2))], exclusive=[('0', '1', 'recursive'), ('csv', 'tsv', 'pickle', 'json'), ('headings', 'skip-headings')],
         requires=[('headings', ('csv', 'tsv')), ('skip-headings', ('csv', 'tsv'))], after='map (*x: str(x))'),
    Spec('write', [F('-c', '--csv'), F('-t', '--tsv'), F('-p', '--pickle'), F('-f', '--format', ['"<{}>"', "'{} {}'", 'x']), F('-a', '--append')], [Anon(['out', '"o u"', 'out2'], none=True)],
         exclusive=[('csv', 'tsv', 'pickle', 'format')], before=G),
    Spec('store', [F('-a', '--append')], [Anon(['R', 'R2'])], before='gen 3'),
    Spec('load', [], [Anon(['RES', 'L'])]),
    Spec('env', [F('-p', '--pattern', ['HO', 'PWD', 'zz']), F('-b', '--builtins'), F('-o', '--os'), F('-d', '--delete', ['DELVAR', 'V'])], [Anon(['HOME', 'USER'], optional=True)],
         exclusive=[('pattern', 'anon0', 'delete'), ('builtins', 'os'), ('delete', 'os')], after='map (k, v: (k, str(v)[:20])) | select (k, v: "_" not in k)'),
    Spec('import', [F('-a', '--as', ['IMPORTED', 'IMPORTED2'])], [Anon(['math', 'os']), Anon(['name', '__name__'], optional=True)], run=False),
    Spec('ps', [F('-u', '--user', ['nobody', '65534', 'root'], optional=True), F('-g', '--group', ['nogroup', '65534'], optional=True), F('-p', '--pid', ['1', '{PID}']), F('-c', '--command', ['python', 'zzz'])],
         [], exclusive=[('user', 'group', 'pid', 'command')], after='map (p: p.pid) | select (p: p in MYPIDS)'),
    Spec('sql', [F('-d', '--db', ['NODB']), F('-a', '--autocommit'), F('-u', '--update-counts'), F('-c', '--commit', INTS, bad=BAD_INTS)],
         [Anon(['"select 1"', "'x'"]), Anon(['(x: x)', '1'], many=(0, 2))], exclusive=[('autocommit', 'commit')], before='gen 2', run=False),
    Spec('timer', [], [Anon(['0.01', '1', '(0.01)'], bad=['abc', '1x', '(None)', '([])'])], run=False),
    Spec('trace', [F('-0', '--off'), F('-1', '--on'), F('-f', '--file', ['t', '"t u"'])], [], exclusive=[('on', 'off', 'file')], run=False),
    Spec('pwd', [], []),
    Spec('version', [], []),
    Spec('dirs', [F('-c', '--clear')], [], after='map (d: str(d))'),
    Spec('popd', [], [], run=False),
    Spec('pushd', [], [Anon(['d', '.'], optional=True)], run=False, unknown=False),
    Spec('cd', [], [Anon(['d', '.'], optional=True)], run=False, unknown=False),
    Spec('history', [F('-c', '--command', ['abc', "'x y'"]), F('-a', '--all')], [Anon(INTS[1:], optional=True, bad=BAD_INTS)], exclusive=[('all', 'anon0')], run=False),
    Spec('edit', [F('-s', '--startup', ['ws'], optional=True)], [Anon(INTS[1:], optional=True, bad=BAD_INTS)], exclusive=[('startup', 'anon0')], run=False),
    Spec('fork', [], [Anon(['2', '3', '([1, 2])'], bad=['(1.5)', '(None)']), Anon(PIPES, bad=BAD_PIPES)], run=False, unknown=False),
    Spec('bg', [F('-j', '--job', INTS, bad=BAD_INTS), F('-p', '--process', INTS, bad=BAD_INTS)], [Anon(INTS, optional=True, bad=BAD_INTS)], exactly_one=('job', 'process', 'anon0'), run=False),
    Spec('fg', [F('-j', '--job', INTS, bad=BAD_INTS), F('-p', '--process', INTS, bad=BAD_INTS)], [Anon(INTS, optional=True, bad=BAD_INTS)], exactly_one=('job', 'process', 'anon0'), run=False),
    Spec('jobs', [], [], run=False),
    Spec('upload', [], [Anon(['CLUSTER'], bad=['nocluster', '(3)']), Anon(['d']), Anon(['a', 'b'], many=(1, 2))], run=False, unknown=False),
    Spec('download', [], [Anon(['d']), Anon(['CLUSTER'], bad=['nocluster', '(3)']), Anon(['a', 'b'], many=(1, 2))], run=False, unknown=False),
    Spec('remote', [], [Anon(['CLUSTER'], bad=['nocluster', '(3)']), Anon(PIPES, bad=BAD_PIPES)], run=False, unknown=False),
]


def allowed(spec, names):
    return (all(len(x & names) <= 1 for x in spec.exclusive) and (not spec.exactly_one or len(spec.exactly_one & names) == 1) and
            all(f not in names or any(n in names for n in needed) for f, needed in spec.requires))


@st.composite
def usage(draw, specs):
    """(index of spec, [(flag index, value or None)], [anon values]), valid."""
    k = draw(st.sampled_from([i for i, s in enumerate(SPECS) if specs(s)]))
    spec = SPECS[k]
    n = len(spec.flags)
    flags = []
    names = set()
    anons = []
    chosen = draw(st.lists(st.sampled_from(range(n)), unique=True, max_size=n)) if n else []
    with_anon = True
    if spec.exactly_one:
        one = draw(st.sampled_from(sorted(spec.exactly_one)))
        with_anon = one == 'anon0'
        chosen = [i for i in chosen if spec.flags[i].name not in spec.exactly_one] + [i for i in range(n) if spec.flags[i].name == one]
    for i in chosen:
        f = spec.flags[i]
        if any(f.name in x and x & names for x in spec.exclusive):
            continue
        names.add(f.name)
        flags.append((i, None if f.values is None or f.optional and draw(st.booleans()) else draw(st.sampled_from(f.values))))
    for f, needed in spec.requires:
        if f in names and not any(x in names for x in needed):
            flags = [(i, v) for i, v in flags if spec.flags[i].name != f]
            names.discard(f)
    for j, a in enumerate(spec.anons):
        if a.many:
            anons.extend(draw(st.lists(st.sampled_from(a.values), min_size=a.many[0], max_size=a.many[1])))
        elif not a.optional or a.always or j == 0 and with_anon and spec.exactly_one or not spec.exactly_one and not any(
                f'anon{j}' in x and x & names for x in spec.exclusive) and draw(st.booleans()):
            # An anon following a flag whose optional value is omitted would be taken for its value
            anons.append(draw(st.sampled_from(a.values)))
        else:
            break
    if anons and flags and spec.flags[flags[-1][0]].optional and flags[-1][1] is None:
        anons = []
    return k, flags, anons


@st.composite
def spelled(draw, u):
    """The flags of the usage, as words, in some order and spelling."""
    k, flags, anons = u
    spec = SPECS[k]
    words = []
    order = draw(st.permutations(flags)) if flags else []
    # Last, a flag whose optional value is omitted would swallow an argument
    if anons and order and spec.flags[order[-1][0]].optional and order[-1][1] is None:
        order = order[::-1]
    combined = ''
    for i, value in order:
        f = spec.flags[i]
        spelling = draw(st.sampled_from(f.spellings()))
        if value is None and spelling == f.short:
            if combined and draw(st.booleans()):
                combined += f.short[1:]
                continue
            if combined:
                words.append(combined)
            combined = f.short
            continue
        if combined:
            words.append(combined)
            combined = ''
        words.append(spelling)
        if value is not None:
            words.append(value)
    if combined:
        words.append(combined)
    return words


def line(spec, words, anons, side=False):
    command = ' '.join([spec.op] + list(words) + list(anons))
    before, after = spec.before, spec.after
    if side:
        before = 'gen 1 | map (x: SIDE(x))' if before else ''
        after = 'map (*x: SIDE(*x))' if not before else ''
    return (f'{before} | ' if before else '') + command + (f' | {after}' if after else '')


class Side(object):
    """Notices being called"""
    calls = 0

    def __call__(self, *x):
        Side.calls += 1
        return x


def setup(cx):
    import marcel.object.cluster
    s = mar.shared_session()
    work = pathlib.Path(cx.scratch) / 'work' / 'c12'
    os.makedirs(work / 'd', exist_ok=True)
    for name in os.listdir(work):
        if name not in ('a', 'b.csv', 'd'):
            os.unlink(work / name)
    if not (work / 'a').exists():
        (work / 'a').write_text('x\ny z\n')
        (work / 'b.csv').write_text('h,k\n1,2\n')
        (work / 'd' / 'e e').write_text('q\tr\n1\t2\n')
        (work / 'd' / 'l').symlink_to('../a')
    os.chdir(work)
    s.env.dir_state().change_current_dir(work)
    s.set('INC', lambda x: x + 1)
    s.set('V', 5)
    s.set('L', [1, 2])
    s.set('SIDE', Side())
    s.set('DELVAR', 'deleted')
    s.set('NODB', 3)
    s.set('MYPIDS', [os.getpid(), os.getppid(), 1])
    s.set('CLUSTER', marcel.object.cluster.Cluster('nobody', 'localhost', identity='/dev/null'))
    if not hasattr(s, 'c12'):
        s.c12 = True
        for text in ('P = (| gen 2 |)', 'P1 = (| x: gen 2 |)', 'NEG = (| map (x: -x) |)', 'gen 3 >$ RES'):
            r = s.eval(text)
            assert r.killed is None, r
    for var in ('R', 'R2'):
        if s.get(var) is not None:
            s.eval(f'env -d {var}')
    return s, work


def state(s, work):
    """What the command may have changed"""
    files = {n: (work / n).read_bytes() for n in ('out', 'o u', 'out2') if (work / n).exists()}
    reservoirs = [s.eval(f'load {v}').out for v in ('R', 'R2') if s.get(v) is not None]
    return files, reservoirs, s.get('DELVAR')


def usages():
    return usage(lambda s: s.run and s.flags).flatmap(lambda u: st.tuples(st.just(u), spelled(u), spelled(u)))


@check('spellings', usages, quick=1600, thorough=40000, shards=(4, 8), rule='at least two flags, spelled or ordered differently')
def spellings(case, cx):
    """The same flags, in different orders and spellings, have the same effect."""
    (k, flags, anons), words1, words2 = case
    spec = SPECS[k]
    results = []
    for words in (words1, words2):
        s, work = setup(cx)
        text = line(spec, words, anons).replace('{PID}', str(os.getpid()))
        r = s.eval(text)
        results.append((text, r, state(s, work)))
    (t1, r1, s1), (t2, r2, s2) = results
    cx.label(spec.op)
    cx.nontrivial(len(flags) > 1 and words1 != words2)
    cx.true(r1.killed is None, f'{t1}: a valid command was rejected: {r1.killed}')
    cx.true(r2.killed is None, f'{t2}: a valid command was rejected: {r2.killed}')
    cx.true(same(r1.out, r2.out), f'{t1} gave {r1.out}, but {t2} gave {r2.out}')
    cx.true(same(s1, s2), f'{t1} left {s1}, but {t2} left {s2}')


DEFECTS = ['unknown', 'unknown', 'unknown combined', 'repeated', 'no value', 'bad flag value', 'bad anon', 'exclusive', 'none of', 'late', 'missing', 'surplus']
UNKNOWN = ['-Z', '--zzz', '-z', '--Recursive', '-9', '--', '--a-b']


@st.composite
def broken(draw):
    k, flags, anons = draw(usage(lambda s: True))
    spec = SPECS[k]
    words = draw(spelled((k, flags, anons)))
    used = {i for i, _ in flags}
    names = {spec.flags[i].name for i in used} | {f'anon{j}' for j in range(len(anons))}
    options = []
    for d in set(DEFECTS):
        if ((d == 'unknown' and spec.unknown) or
                (d == 'unknown combined' and any(spec.flags[i].values is None and spec.flags[i].short for i in used)) or
                (d == 'repeated' and used) or
                (d == 'no value' and any(f.values and not f.optional for f in spec.flags)) or
                (d == 'bad flag value' and any(f.bad for f in spec.flags)) or
                (d == 'bad anon' and any(a.bad for a in spec.anons[:len(anons)])) or
                (d == 'exclusive' and spec.exclusive or d == 'exclusive' and spec.exactly_one and len(spec.exactly_one) > 1) or
                (d == 'none of' and spec.exactly_one) or
                (d == 'late' and spec.flags and anons) or
                (d == 'missing' and any(not a.optional and not a.none and (not a.many or a.many[0]) for a in spec.anons)) or
                (d == 'surplus' and not any(a.many for a in spec.anons) and spec.op != 'case')):
            options.append(d)
    if not options:
        return None
    defect = draw(st.sampled_from(sorted(options)))
    words, anons = list(words), list(anons)
    pick = lambda xs: draw(st.sampled_from(xs))

    def value_of(f):
        return [pick(f.values)] if f.values and not f.optional else []

    if defect == 'unknown':
        at = [i for i in range(len(words) + 1) if i == 0 or not takes_value(spec, words[i - 1])]
        words.insert(pick(at), pick([u for u in UNKNOWN if all(u not in f.spellings() for f in spec.flags)]))
    elif defect == 'unknown combined':
        f = pick([spec.flags[i] for i in sorted(used) if spec.flags[i].values is None and spec.flags[i].short])
        # In place of the flag
        words = [f.short + 'Z'] + [w for w in words if w not in f.spellings()]
    elif defect == 'repeated':
        i = pick(sorted(used))
        f = spec.flags[i]
        words = [pick(f.spellings())] + value_of(f) + words
    elif defect == 'no value':
        f = pick([f for f in spec.flags if f.values and not f.optional])
        clean = remove(spec, words, f)
        if anons and not clean:
            anons = []
            words = [pick(f.spellings())]
        else:
            words = [pick(f.spellings())] + clean
            if not clean or not clean[0].startswith('-'):
                anons = []
                words = [pick(f.spellings())]
    elif defect == 'bad flag value':
        f = pick([f for f in spec.flags if f.bad])
        words = [pick(f.spellings()), pick(list(f.bad))] + remove(spec, words, f)
    elif defect == 'bad anon':
        j = pick([j for j, a in enumerate(spec.anons[:len(anons)]) if a.bad])
        j2 = j if not spec.anons[j].many else pick(range(j, len(anons)))
        anons[j2] = pick(list(spec.anons[j].bad))
    elif defect == 'exclusive':
        group = sorted(pick([g for g in spec.exclusive + ([spec.exactly_one] if spec.exactly_one else []) if len(g) > 1]))
        two = draw(st.permutations(group))[:draw(st.sampled_from([2, 2, 2, 3, 4]))]
        words = []
        anons = []
        for name in two:
            if name == 'anon0':
                anons = [pick(spec.anons[0].values)]
            else:
                f = [f for f in spec.flags if f.name == name][0]
                words += [pick(f.spellings())] + ([pick(f.values)] if f.values else [])
        if not anons:
            anons = required(spec, pick)
    elif defect == 'none of':
        words, anons = [w for w in remove_all(spec, words)], []
    elif defect == 'late':
        f = pick(spec.flags)
        anons = anons + [pick(f.spellings())] + value_of(f)
        words = remove(spec, words, f)
    elif defect == 'missing':
        n = sum(1 for a in spec.anons if not a.optional and not a.many and not a.none)
        if n == 0:
            anons = []
        else:
            anons = anons[:draw(st.integers(0, n - 1))]
        if words and any(takes_value(spec, w, optional=True) for w in words[-1:]):
            words = []
    else:
        while len(anons) < len(spec.anons):
            anons.append(pick(spec.anons[len(anons)].values))
        anons.append(pick(['0', 'x', '(1)', '"y z"']))
        if words and any(takes_value(spec, w, optional=True) for w in words[-1:]):
            words = []
    return k, defect, words, anons


def required(spec, pick):
    out = []
    for a in spec.anons:
        if a.many:
            out += [pick(a.values)] * a.many[0]
        elif not a.optional:
            out.append(pick(a.values))
    return out


def takes_value(spec, word, optional=True):
    return any(word in f.spellings() and f.values and (optional or not f.optional) for f in spec.flags)


def remove(spec, words, f):
    """words without flag f (which is not combined with others, if it takes a value)."""
    out = []
    skip = False
    for w in words:
        if skip:
            skip = False
            if not w.startswith('-'):
                continue
        if w in f.spellings():
            skip = bool(f.values)
        elif f.values is None and f.short and len(w) > 2 and w[0] == '-' and w[1] != '-' and f.short[1] in w:
            w = w.replace(f.short[1], '')
            if len(w) > 1:
                out.append(w)
        else:
            out.append(w)
    return out


def remove_all(spec, words):
    for f in spec.flags:
        words = remove(spec, words, f)
    return words


def names_it(spec, message, args):
    """The message names the operator, or shows the bad argument"""
    return spec.op in message or any(len(a.strip('"()\'')) > 1 and a.strip('"()\'') in message for a in args)


@check('invalid', lambda: broken().filter(lambda x: x is not None), quick=1600, thorough=40000, shards=(3, 8), rule='every case')
def invalid(case, cx):
    """One defect. The command is rejected, the message names the operator, and nothing has happened."""
    k, defect, words, anons = case
    spec = SPECS[k]
    s, work = setup(cx)
    text = line(spec, words, anons, side=True).replace('{PID}', str(os.getpid()))
    Side.calls = 0
    before = sorted(os.listdir(work)), s.env.trace.is_enabled(), str(s.get('PWD')), [str(x) for x in s.get('DIRS')], s.get('DELVAR')
    r = s.eval(text)
    after = sorted(os.listdir(work)), s.env.trace.is_enabled(), str(s.get('PWD')), [str(x) for x in s.get('DIRS')], s.get('DELVAR')
    cx.nontrivial()
    cx.label(defect)
    cx.label(spec.op)
    cx.true(r.killed is not None and not r.out, f'{text} ({defect}) should be rejected: {r}')
    cx.true(names_it(spec, r.killed, words + anons), f'{text} ({defect}): the message does not name the operator: {r.killed}')
    if defect == 'unknown' and spec.flags:
        bad = [w for w in words if w in UNKNOWN]
        cx.true(spec.op in r.killed and any(w in r.killed for w in bad), f'{text}: an unknown flag {bad}, but the message is {r.killed}')
    cx.eq(Side.calls, 0, f'{text} ({defect}): number of tuples processed')
    cx.eq(after, before, f'{text} ({defect}): state of the session')
    cx.eq(s.get('R'), None, f'{text} ({defect}): R')
    out, err = s.command(text)
    cx.true(names_it(spec, out + err, words + anons), f'{text} ({defect}): printed {out!r} {err!r}')
