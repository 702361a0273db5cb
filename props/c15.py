"""C15: reservoirs hold exactly the stream that was stored in them."""
import datetime
import os
import pathlib

import hypothesis.strategies as st

from harness import mar
from harness.core import check
from harness.vals import same, values

VARS = ['r', 's', 't']

@st.composite
def streams(draw):
    """Rows, some with shared substructure."""
    pool = draw(st.lists(values, min_size=1, max_size=4))
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 5]))
    rows = []
    for _ in range(n):
        row = draw(st.lists(st.one_of(st.sampled_from(pool), values), min_size=1, max_size=3))
        if draw(st.integers(0, 3)) == 0:
            row = [draw(st.sampled_from(pool))] * len(row)
        rows.append(list(row) if draw(st.integers(0, 3)) == 0 else tuple(row))
    if rows and draw(st.integers(0, 3)) == 0:
        rows.append(rows[0])
    return rows


var = st.sampled_from(VARS)
steps = st.one_of(
    st.tuples(st.just('store'), var, streams(), st.just(False)),
    st.tuples(st.just('store'), var, streams(), st.booleans()),
    st.tuples(st.just('store'), var, streams(), st.just(True)),
    st.tuples(st.just('store'), var, st.integers(1, 4), st.booleans()),
    st.tuples(st.just('store'), var, st.sampled_from([200, 1000]), st.booleans()),
    st.tuples(st.just('load'), var),
    st.tuples(st.just('partial'), var, st.integers(1, 3)),
    st.tuples(st.just('copy'), var, var, st.booleans()),
    st.tuples(st.just('twice'), var, var),
    st.tuples(st.just('nested'), var, var),
    st.tuples(st.just('inner'), var, var, st.booleans()),
    st.tuples(st.just('mutate'), var, st.booleans()),
    st.tuples(st.just('unpicklable'), var, st.integers(0, 3), st.booleans()),
    st.tuples(st.just('badload'), var),
    st.tuples(st.just('alias'), var),
    st.tuples(st.just('inuse'), var, st.sampled_from(['env -d {0}', 'gen 1 >$ {0}', 'env -d {0} | map (x: 1)'])),
    st.tuples(st.just('error'), var, st.integers(0, 3), st.booleans()),
    st.tuples(st.just('assign'), var, st.sampled_from(['5', '(5)', '(x: x)', '(| gen 1 |)'])),
    st.tuples(st.just('delete'), var))
histories = st.tuples(st.lists(steps, min_size=1, max_size=10), st.lists(st.booleans(), min_size=10, max_size=10))


def rows_of(stream):
    return [(i,) for i in range(stream)] if isinstance(stream, int) else stream


class Language(object):

    def __init__(self, cx):
        self.cx = cx
        self.s = mar.shared_session()
        for v in VARS + ['q']:
            if self.s.get(v) is not None or self.s.env.workspace.hasvar(v):
                self.s.env.delvar(v)

    def store_text(self, var, append, symbol):
        return (f'{">>$" if append else ">$"} {var}' if symbol else
                f'| store {"-a " if append else ""}{var}')

    def source_text(self, stream):
        if isinstance(stream, int):
            return f'gen {stream}'
        self.s.set('V', stream)
        return f'gen {len(stream)} | map (i: V[i])' if stream else 'gen 1 | select (x: False)'

    def load_text(self, var, symbol):
        return f'{var} <$' if symbol else f'load {var} |'

    def run(self, text):
        r = self.s.eval(text)
        self.cx.eq(r.stderr, '', f'{text}: stderr')
        return r


@check('language', lambda: histories, quick=3000, thorough=100000, shards=(6, 8),
       rule='at least two stores that succeed, one of them to a variable that had been used before')
def language(case, cx):
    history, symbols = case
    os.chdir(cx.scratch + '/work')
    world = Language(cx)
    model = {}
    done = []
    stores = again = 0

    def expect(r, rows, text):
        cx.true(r.killed is None, f'{done}: {text}: {r.killed}')
        cx.true(same(r.out, rows), f'{done}: {text}: expected {rows!r}, got {r.out!r}')

    def rejected(r, text):
        cx.label('rejected')
        cx.true(r.killed is not None and not r.values, f'{done}: {text} should have been rejected, got {r}')

    def is_res(v):
        return type(model.get(v)) is list

    for i, step in enumerate(history):
        kind, v = step[0], step[1]
        symbol = symbols[i % len(symbols)]
        cx.label(kind)
        if kind in ('store', 'unpicklable', 'error', 'mutate'):
            append = step[-1]
            if kind == 'store':
                rows = rows_of(step[2])
                source = world.source_text(step[2])
            elif kind == 'mutate':
                rows = [[0], [0, 1], [0, 1, 2]]
                world.s.set('ACC', [])
                source = 'gen 3 | map (i: (ACC.append(i), ACC)[1])'
            elif kind == 'unpicklable':
                rows = [(j,) for j in range(4) if j != step[2]]
                source = f'gen 4 | map (i: (j for j in [i]) if i == {step[2]} else i)'
            else:
                rows = [(j,) for j in range(4) if j != step[2]]
                source = f'gen 4 | map (i: i if i != {step[2]} else 1 // 0)'
            text = f'{source} {world.store_text(v, append, symbol)}'
            r = world.run(text)
            if append and v in model and not is_res(v):
                rejected(r, text)
            else:
                expect_out = [] if kind in ('store', 'mutate') else r.errors
                cx.true(r.killed is None and same(r.out, expect_out) and
                        len(r.errors) == (0 if kind in ('store', 'mutate') else 1), f'{done}: {text}: {r}')
                stores += 1
                again += v in model
                model[v] = (list(model[v]) if append and is_res(v) else []) + [copy(x) for x in rows]
        elif kind == 'load':
            text = world.load_text(v, symbol) + ' map (*t: t)'
            text = f'{v} <$' if symbol else f'load {v}'
            r = world.run(text)
            expect(r, model[v], text) if is_res(v) else rejected(r, text)
        elif kind == 'partial':
            text = world.load_text(v, symbol) + f' head {step[2]}'
            r = world.run(text)
            expect(r, model[v][:step[2]], text) if is_res(v) else rejected(r, text)
        elif kind == 'copy':
            _, a, b, append = step
            text = (f'{a} <$ {world.store_text(b, append, True)}' if symbol else
                    f'load {a} {world.store_text(b, append, False)}')
            r = world.run(text)
            if not is_res(a) or a == b or append and b in model and not is_res(b):
                rejected(r, text)
            else:
                expect(r, [], text)
                stores += 1
                again += b in model
                model[b] = (list(model[b]) if append and is_res(b) else []) + model[a]
        elif kind == 'twice':
            _, a, b = step
            text = f'{world.load_text(a, symbol)} union (| {b} <$ |)'
            r = world.run(text)
            # An undefined operand of union: errors inside pipeline arguments are not covered here
            if is_res(a) and is_res(b):
                expect(r, model[a] + model[b], text)
            else:
                cx.true(r.killed is not None, f'{done}: {text} should have been rejected: {r}')
        elif kind == 'nested':
            _, a, b = step
            if not (is_res(a) and is_res(b)):
                continue
            text = f'{world.load_text(a, symbol)} head 3 | args (| n: {b} <$ head 2 |)'
            expect(world.run(text), [x for _ in model[a][:3] for x in model[b][:2]], text)
        elif kind == 'inner':
            # Stores within the pipelines run by args
            _, a, b, append = step
            if not (is_res(a) and model[a]) or append and b in model and not is_res(b):
                continue
            text = f'{world.load_text(a, symbol)} map (*t: 0) | args (| n: gen 2 {world.store_text(b, append, True)} |)'
            r = world.run(text)
            if a == b:
                cx.true(not r.values and (r.killed is not None or r.errors), f'{done}: {text} should have been rejected: {r}')
            else:
                expect(r, [], text)
                stores += 1
                again += b in model
                model[b] = (list(model[b]) + [(0,), (1,)] * len(model[a])) if append and is_res(b) else \
                    [(0,), (1,)] * (len(model[a]) if append else 1)
        elif kind == 'badload':
            text = world.load_text(v, symbol) + ' head (1 // 0)'
            rejected(world.run(text), text)
        elif kind == 'alias':
            if not is_res(v):
                continue
            text = f'q = ({v})'
            r = world.run(text)
            cx.true(r.killed is None and r.out == [], f'{done}: {text}: {r}')
            expect(world.run('q <$'), model[v], text)
        elif kind == 'inuse':
            # Changing a reservoir while it is being loaded
            if not (is_res(v) and model[v]):
                continue
            world.run('env -d q')  # A reservoir with another name is kept when one variable is deleted
            text = f'{v} <$ map (*t: 1) | args (| n: {step[2].format(v)} |)'
            r = world.run(text)
            cx.true(not r.values and (r.killed is not None or r.errors), f'{done}: {text} should have been rejected: {r}')
        elif kind == 'assign':
            text = f'{v} = {step[2]}'
            r = world.run(text)
            cx.true(r.killed is None and r.out == [], f'{done}: {text}: {r}')
            model[v] = step[2]
        elif kind == 'delete':
            text = f'env -d {v}'
            r = world.run(text)
            if v in model:
                cx.true(r.killed is None, f'{done}: {text}: {r}')
                del model[v]
            else:
                cx.true(not r.values, f'{done}: {text}: {r}')
        done.append(text if kind != 'store' else f'{text} [{step[2]!r}]')
        for u in VARS:
            r = world.s.eval(f'{u} <$')
            if is_res(u):
                cx.true(r.killed is None and same(r.out, model[u]),
                        f'{done}: {u} contains {r.killed or r.out!r}, expected {model[u]!r}')
            else:
                cx.true(r.killed is not None, f'{done}: {u} is not a reservoir, but loading it gives {r}')
    # Must not fail in any other way than being rejected, even if the variable q was assigned from is something else now.
    world.run('q <$')
    cx.nontrivial(stores >= 2 and again > 0)


def copy(row):
    return type(row)(row) if isinstance(row, list) else row


api_steps = st.one_of(st.tuples(st.just('store'), var, streams(), st.booleans()),
                      st.tuples(st.just('store'), var, st.integers(1, 4), st.booleans()),
                      st.tuples(st.just('copy'), var, var, st.booleans()),
                      st.tuples(st.just('partial'), var),
                      st.tuples(st.just('twice'), var, var),
                      st.tuples(st.just('iterate'), var))


@check('api', lambda: st.lists(api_steps, min_size=2, max_size=8), quick=900, thorough=50000, shards=(2, 8),
       rule='at least two stores that succeed, one of them to a reservoir that had been used before')
def api(history, cx):
    import contextlib
    import io
    import marcel.api as m
    import tempfile
    os.makedirs(cx.scratch + '/tmp', exist_ok=True)
    tempfile.tempdir = cx.scratch + '/tmp'
    res = {v: m.reservoir(v) for v in VARS}
    model = {v: [] for v in VARS}
    touched = set()
    again = stores = 0
    try:
        for i, step in enumerate(history):
            kind, v = step[0], step[1]
            cx.label(kind)
            context = f'{history[:i + 1]}'

            def source():
                x = step[2]
                return m.gen(x) if isinstance(x, int) else m.gen(1) | m.map(lambda _: [tuple(x)]) | m.expand(0) if x and False \
                    else m.gen(len(x)) | m.map(lambda j: x[j]) if x else m.gen(1) | m.select(lambda _: False)
            err = io.StringIO()
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                if kind == 'store':
                    m.run(source() | m.store(res[v], append=step[3]))
                    model[v] = (model[v] if step[3] else []) + rows_of(step[2])
                elif kind == 'copy':
                    m.run(m.load(res[v]) | m.store(res[step[2]], append=step[3]))
                    if v != step[2]:
                        model[step[2]] = (model[step[2]] if step[3] else []) + model[v]
                elif kind == 'partial':
                    first = m.first(m.load(res[v]), unwrap_singleton=False)
                    cx.true(same(first, model[v][0] if model[v] else None), f'{context}: first: {first!r}')
                elif kind == 'twice':
                    out = m.gather(m.load(res[v]) | m.union(m.load(res[step[2]])), unwrap_singleton=False)
                    cx.true(same(out, model[v] + model[step[2]]), f'{context}: {out!r}, expected {model[v] + model[step[2]]!r}')
                else:
                    out = list(m.load(res[v]))
                    cx.true(same([x for x in out], [x[0] if len(x) == 1 else x for x in model[v]]),
                            f'{context}: iteration: {out!r}, expected {model[v]!r}')
            in_use = kind == 'copy' and v == step[2]
            cx.eq(err.getvalue() != '', in_use, f'{context}: error reported ({err.getvalue()})')
            if kind in ('store', 'copy') and not in_use:
                target = step[2] if kind == 'copy' else v
                stores += 1
                again += target in touched
                touched.add(target)
            for u in VARS:
                out = m.gather(m.load(res[u]), unwrap_singleton=False)
                cx.true(same(out, model[u]), f'{context}: {u} contains {out!r}, expected {model[u]!r}')
    finally:
        for r in res.values():
            os.unlink(r.path)
    cx.nontrivial(stores >= 2 and again > 0)
