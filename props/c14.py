"""C14: variables are one consistent store of assigned values."""
import os

from harness.core import check
from harness.world import World, histories


@check('history', lambda: histories, quick=1500, thorough=60000, shards=(6, 8),
       rule='a variable is redefined or deleted after having been assigned')
def history(case, cx):
    os.chdir(cx.scratch + '/work')
    world = World(cx)
    again = False
    for step in case:
        before = set(world.vars)
        cx.label(step[0])
        world.step(step)
        again = again or (step[0] in ('string', 'literal', 'expression', 'function', 'pipeline', 'delete', 'store', 'importas') and
                          step[1] in before)
    world.finish()
    cx.nontrivial(again)
