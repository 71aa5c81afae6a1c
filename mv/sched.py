"""Schedules and faults inside of MarkFlow, by way of sys.monitoring's line events.

`Baton` runs functions in threads of which only one is ever running; at chosen line
events of MarkFlow's code the running thread hands the baton to another one.  The
choices come from a seeded generator, so that a schedule can be repeated.
`fault` makes MarkFlow raise an exception at the n-th line it executes."""
import os
import sys
import threading

from .run import REPO, digest

MON = sys.monitoring
TOOL = MON.DEBUGGER_ID
ROOT = os.path.join(os.path.realpath(REPO), "markflow") + os.sep


class Lines:
    """Calls fn(code, line) at every executed line of MarkFlow."""

    def __init__(self, fn, only=None):
        self.fn, self.only = fn, only

    def __enter__(self):
        def line(code, lineno):
            name = code.co_filename
            if not name.startswith(ROOT) or (self.only and not self.only(name[len(ROOT):])):
                return MON.DISABLE
            self.fn(code, lineno)

        MON.use_tool_id(TOOL, "mv-sched")
        MON.register_callback(TOOL, MON.events.LINE, line)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        return self

    def __exit__(self, *exc):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)


class Baton:
    def __init__(self, R, jobs, mean, most=400):
        self.R, self.jobs = R, jobs
        self.mean = mean            # mean number of lines between two hand-overs
        self.most = most
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.alive = set(range(len(jobs)))
        self.current = 0
        self.left = 1
        self.free = False           # gave up on scheduling (code that locks)
        self.switches = 0
        self.trace = []
        self.index = threading.local()
        self.errors = []

    def _next(self):
        self.left = self.R.randint(1, 2 * self.mean)

    def line(self, code, lineno):
        me = getattr(self.index, "i", None)
        if me is None or self.free or me != self.current:
            return
        self.left -= 1
        if self.left > 0:
            return
        self._next()
        others = [i for i in sorted(self.alive) if i != me]
        if not others or self.switches >= self.most:
            return
        to = self.R.choice(others)
        self.switches += 1
        self.trace.append((me, to, code.co_name, lineno))
        self.current = to
        self.sems[to].release()
        self.wait(me)

    def wait(self, me):
        while not self.free and not self.sems[me].acquire(timeout=2):
            # nobody came back: whoever runs is waiting for something a thread holds
            # that we stopped; let everybody run
            self.free = True
            for s in self.sems:
                s.release()

    def _run(self, i, job):
        self.index.i = i
        self.wait(i)
        try:
            job()
        except BaseException as e:  # the harness's own
            self.errors.append(repr(e))
        finally:
            self.alive.discard(i)
            if not self.free and self.alive:
                self.current = to = self.R.choice(sorted(self.alive))
                self.sems[to].release()

    def run(self):
        threads = [threading.Thread(target=self._run, args=(i, j)) for i, j in enumerate(self.jobs)]
        self._next()
        with Lines(self.line):
            for t in threads:
                t.start()
            self.current = 0
            self.sems[0].release()
            for t in threads:
                t.join()
        return digest(self.trace)


# Where work on the text goes on and an interruption, or running out of memory, can hit
WORK = ("detectors" + os.sep, "formatters" + os.sep, "_utils" + os.sep + "textwrap")


def fault(fn, n, exc):
    """Run fn; at the n-th executed line of MarkFlow's detectors and formatters exc is
    raised.  Returns (what fn returned or raised, was the fault raised?)."""
    left = [n]
    hit = [False]

    def line(code, lineno):
        left[0] -= 1
        if left[0] == 0:
            hit[0] = True
            raise exc("injected fault")

    with Lines(line, only=lambda name: name.startswith(WORK)):
        try:
            got = fn()
        except BaseException as e:
            got = e
    return got, hit[0]
