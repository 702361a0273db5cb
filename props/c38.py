"""C38: timer generates timestamps at the interval, until it is interrupted."""
import threading
import time

import hypothesis.strategies as st

from harness import mar
from harness.core import check


class Enough(KeyboardInterrupt):
    pass


@check('timer', lambda: st.tuples(st.sampled_from([0, 0.001, 0.004, 0.01, 0.03]), st.integers(1, 8), st.sampled_from([0, 0, 0.002, 0.02]), st.sampled_from(['', '(1 * {})', '{}'])),
       quick=60, thorough=1500, shards=(4, 8), rule='at least two timestamps')
def timer(case, cx):
    """timer, interrupted after a number of timestamps."""
    interval, n, pause, form = case
    s = mar.shared_session()
    ticks = []

    def tick(t):
        ticks.append((t, time.time()))
        time.sleep(pause)
        if len(ticks) == n:
            raise Enough()
        return t

    s.set('tick', tick)
    before = threading.active_count()
    text = f'timer {form.format(interval) or interval} | map (t: tick(t))'
    start = time.time()
    try:
        r = s.eval(text)
        cx.fail(f'{text}: ended by itself: {r}')
    except Enough:
        pass
    previous = start
    for i, (t, at) in enumerate(ticks):
        cx.true(type(t) is float and previous - 0.001 <= t <= at + 0.001, f'{text}: timestamp {i}: {t}, received at {at}, previous {previous}')
        previous = t
    cx.true(ticks[-1][0] - start >= (n - 2) * interval * 0.95 - 0.001, f'{text}: {n} timestamps in {ticks[-1][0] - start} s')
    cx.true(len({t for t, _ in ticks}) == n or interval == 0, f'{text}: a timestamp appears twice: {ticks}')
    # It has ended
    deadline = time.time() + 5
    while threading.active_count() > before and time.time() < deadline:
        time.sleep(0.005)
    cx.true(threading.active_count() <= before, f'{text}: still running after having been interrupted')
    cx.nontrivial(n > 1)
