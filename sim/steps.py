"""Deterministic execution-step counter for code under test (sys.monitoring).

Counts backward/forward jumps and function entries executed in pdfmajor's own
code.  When the budget is exhausted StepBudget is raised inside the code under
test, so non-termination becomes a repeatable verdict, not a wall-clock guess.
"""
import os
import sys
import time

from . import core


class StepBudget(BaseException):
    pass


_mon = sys.monitoring
TOOL = 4
count = 0
limit = None


def _prefix():
    return os.path.join(core.REPO, 'pdfmajor') + os.sep


def install(budget):
    global limit, count
    limit = budget
    count = 0
    pre = _prefix()
    _mon.use_tool_id(TOOL, 'vsim-steps')

    def tick(code, *_):
        global count
        if not code.co_filename.startswith(pre):
            return _mon.DISABLE
        count += 1
        if count > limit:
            raise StepBudget('step budget of %d exhausted' % limit)

    ev = _mon.events
    _mon.register_callback(TOOL, ev.JUMP, tick)
    _mon.register_callback(TOOL, ev.PY_START, tick)
    _mon.register_callback(TOOL, ev.PY_RESUME, tick)
    _mon.set_events(TOOL, ev.JUMP | ev.PY_START | ev.PY_RESUME)


per_call = False            # the budget is for one operation, not for the whole run
started = None              # when the operation under way began


def begin():
    global count, started
    if per_call:
        count = 0
        started = time.monotonic()


def reset():
    global count
    count = 0


def uninstall():
    global limit
    _mon.set_events(TOOL, 0)
    _mon.free_tool_id(TOOL)
    limit = None
