"""Deterministic work budgets: counts backward jumps and calls inside the library."""
import sys
from core import MACHUP_DIR
from inject import StepBudget

mon = sys.monitoring
TOOL = 3


class Budget:
    """Counts JUMP and PY_START events of library code through sys.monitoring. When the
    count of the current request passes its limit, StepBudget is raised inside the library,
    again every GRACE events should the library swallow it."""

    def __init__(self):
        self.count = 0
        self.limit = None
        self.active = False

    def install(self):
        mon.use_tool_id(TOOL, "dst-budget")
        pref = MACHUP_DIR
        dis = mon.DISABLE

        def ev(code, off, dest=None):
            if not code.co_filename.startswith(pref):
                return dis
            self.count += 1
            if self.limit is not None and self.count > self.limit:
                self.limit += 200
                self.hit = True
                raise StepBudget("more than %d units of work" % self.base)
            return None

        mon.register_callback(TOOL, mon.events.JUMP, ev)
        mon.register_callback(TOOL, mon.events.PY_START, ev)
        mon.set_events(TOOL, mon.events.JUMP | mon.events.PY_START)
        self.active = True
        self.hit = False

    def begin(self, limit):
        self.count = 0
        self.base = limit
        self.limit = limit
        self.hit = False

    def end(self):
        n, self.limit = self.count, None
        return n
