"""Counts executed lines of MarkFlow (logical steps, not wall clock)."""
import os
import sys

from . import sut
from .run import REPO

MON = sys.monitoring
TOOL = MON.DEBUGGER_ID


class Budget(BaseException):
    pass


def count(text, width, budget):
    """Lines of MarkFlow code executed to format the text; at most budget."""
    n = [0]
    root = os.path.join(os.path.realpath(REPO), "markflow") + os.sep

    def line(code, lineno):
        if not code.co_filename.startswith(root):
            return MON.DISABLE
        n[0] += 1
        if n[0] >= budget:
            raise Budget

    MON.use_tool_id(TOOL, "mv-steps")
    try:
        MON.register_callback(TOOL, MON.events.LINE, line)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        try:
            sut.fmt(text, width)
        except Budget:
            pass
    finally:
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)
    return n[0]
