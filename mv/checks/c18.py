"""C18: formatting is a pure function, also after failures and across threads."""
import io
import json
import locale
import logging
import os
import random
import signal
import subprocess
import sys
import threading
import warnings

from .. import child, gen, sched, soup, sut
from ..base import Check
from ..run import REPO, VERIF, Obs, digest
from . import witnesses

TABLES = ["| a | b |\n|---|---|\n| c |\n", "a\n\n| a |\n| b |\n", "> | a |\n> |---|---|\n", "- | x | y |\n  |---|---|\n  | 1 | 2 | 3 |\n"]
EXCS = [KeyboardInterrupt, MemoryError, RuntimeError, RecursionError, SystemExit, ValueError]


LARGE = [0, -1, 121, 127, 128, 129, 200, 255, 256, 257, 300, 400, 512, 1000, 1024, 5000]


def short(R):
    k = R.random()
    if k < 0.15:
        return R.choice(TABLES)
    if k < 0.27:
        return R.choice(witnesses.UNSTABLE)[0]
    if k < 0.32:
        return "> " * R.choice([300, 500]) + "x\n"
    if k < 0.5:
        return R.choice(witnesses.HTML)[1]
    if k < 0.6:
        return prose(R)
    if k < 0.75:
        return soup.anytext(R)[1][:600]
    return soup.document(R, size=R.choice([1, 2, 3]))[:1200]


def prose(R):
    """A paragraph of one to thirty lines."""
    return " ".join(R.choice(gen.SAFE) for _ in range(R.choice([10, 40, 150]))) + "\n"


def sibling(R, text):
    """A text that is easily mistaken for this one."""
    words = text.split(" ")
    k = R.randint(0, 3)
    plain = [j for j, x in enumerate(words) if x.isalpha()]
    if k == 3 or not plain:
        return text + R.choice(["\n", " ", "x\n", "\nx\n"])
    mid = [j for j in plain if len(words) // 4 <= j <= 3 * len(words) // 4] or plain
    j = R.choice(mid)
    if k == 0:      # another word as long
        words[j] = "".join(R.choice("abcdefgh") for _ in words[j])
    elif k == 1:    # two words swapped
        h = R.choice(mid)
        words[j], words[h] = words[h], words[j]
    else:           # same words, other lines
        words[j] += "\n" + words.pop(j + 1) if j + 1 < len(words) and words[j + 1].isalpha() else ""
    return " ".join(words)


def names():
    return [""] + sorted(n for n, x in logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger))


def state():
    """The process-wide state an application may have configured."""
    out = {}
    for n in names():
        x = logging.getLogger(n) if n else logging.root
        out["logger:" + n] = (x.level, x.disabled, x.propagate, [id(h) for h in x.handlers], [id(f) for f in x.filters],
                              [(h.level, id(h.formatter), [id(f) for f in h.filters]) for h in x.handlers])
    out["logging.disable"] = logging.root.manager.disable
    out["levels"] = [logging.getLevelName(x) for x in (10, 20, 30, 40, 50, 5, 15)]
    out["factory"] = (id(logging.getLogRecordFactory()), id(logging.getLoggerClass()), logging.raiseExceptions)
    out["recursion limit"] = sys.getrecursionlimit()
    out["switch interval"] = sys.getswitchinterval()
    out["cwd"] = os.getcwd()
    out["environment"] = digest(sorted(os.environ.items()))
    out["warnings"] = [(a, str(b), c.__name__) for a, b, c, _, _ in warnings.filters]
    out["streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    out["signals"] = [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)]
    out["locale"] = locale.setlocale(locale.LC_ALL)
    out["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.gettrace()), id(sys.getprofile()))
    out["random"] = digest(random.getstate())
    return out


def differs(a, b):
    return [(k, repr(a.get(k))[:200], repr(b.get(k))[:200]) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


class Collect(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        # (DEBUG tells how a result was found, e.g. that it was remembered)
        if record.name.startswith("markflow") and record.levelno > logging.DEBUG:
            self.seen.append((record.levelname, record.getMessage()))


def records(c):
    """What a call logs, with nothing configured but a handler that takes everything."""
    logging.disable(logging.NOTSET)
    for n in names():
        x = logging.getLogger(n) if n else logging.root
        x.setLevel(1 if not n else logging.NOTSET)
        x.propagate, x.disabled = True, False
        for h in list(x.handlers):
            x.removeHandler(h)
    h = Collect()
    logging.root.addHandler(h)
    fmt(*c)
    logging.root.removeHandler(h)
    return h.seen


class Count(logging.Handler):
    n = 0

    def emit(self, record):
        Count.n += 1
        record.getMessage()


def configure(R):
    """An application's logging configuration."""
    logging.lastResort = logging.NullHandler()
    logging.disable(R.choice([logging.NOTSET] * 5 + [logging.DEBUG, logging.CRITICAL]))
    logging.root.setLevel(R.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL, 5]))
    for n in names():
        if n.startswith("markflow") and R.random() < 0.4:
            x = logging.getLogger(n)
            x.setLevel(R.choice([0, 5, 10, 20, 30, 40, 50]))
            x.propagate = R.random() < 0.7
            x.disabled = R.random() < 0.1
            if R.random() < 0.3:
                x.addHandler(Count())
            if R.random() < 0.2:
                x.addFilter(lambda record: True)
    if R.random() < 0.7:
        logging.root.addHandler(Count())
    if R.random() < 0.2:
        logging.root.addHandler(logging.StreamHandler(io.StringIO()))


def fmt(text, w):
    k, v = sut.fmt(text, w)
    if k == "exc":
        v = v.split(":")[0]
    return k, v


def reference(calls):
    """Each call in a process that has never formatted anything."""
    def fresh(c):
        logging.disable(logging.NOTSET)
        logging.lastResort = logging.NullHandler()
        return fmt(*c)
    return {c: child.call(lambda c=c: fresh(c)) for c in calls}


class C18(Check):
    id = "C18"
    rule = ("histories: 20..60 calls over 3..15 texts (formatted, refused for a table, unstable, too deep, random, long, and siblings of these with one word replaced or two swapped) and widths, with exceptions injected at a "
            "random executed line, under random logging configurations that the application changes in between; schedules: 2..5 threads formatting at "
            "the same time, handing over at seeded line events of MarkFlow, while another thread reconfigures logging; every result (and, at the end, the messages logged) against the same call in "
            "a process that has formatted nothing before, logging and other process-wide state before and after every call. Distinct by the sequence of "
            "calls, or by the schedule; non-trivial: at least two calls")
    n = dict(quick=500, thorough=15000)
    wall = dict(quick=30, thorough=900)
    case_seconds = 60
    reach = dict(calls=2000, failures_before_call=200, burst_calls=2000, faults=100, schedules=50, switches=500, states_compared=1000, logs_compared=300)
    level = "fault_enumeration"

    def case(self, R, i, tier):
        n = R.choice([3, 5, 7, 9])
        calls = []
        for _ in range(n):
            t = short(R)
            w = R.choice([1, 5, 10, 20, 40, 88, 88, 300, float("inf")])
            calls.append((t, w))
            if R.random() < 0.3:
                calls.append((t, R.choice(gen.WIDTHS)))
            if R.random() < 0.15:
                # line lengths that are hardly used; texts are asked for at several of them
                calls += [(t, x) for x in R.sample(LARGE, 2)]
            while R.random() < 0.4:
                calls.append((sibling(R, t), R.choice([w, w, R.choice(gen.WIDTHS)])))
        ref = reference(set(calls))
        self.logged = {c: child.call(lambda c=c: records(c)) for c in R.sample(calls, min(2, len(calls))) if ref[c][0] != "exc"}
        if R.random() < 0.5:
            counts, viol, key = child.call(lambda: self.history(R, calls, ref), 50)
        else:
            counts, viol, key = child.call(lambda: self.threads(R, calls, ref), 50)
        o = Obs(key=key)
        o.counts.update(counts)
        if viol:
            o.violation(**viol)
        elif i % 40 == 0:
            o.sample = dict(calls=[(t[:80], str(w), ref[(t, w)][0]) for t, w in calls[:6]], observed=dict(counts))
        return o

    # ------------------------------------------------------------------ histories
    def history(self, R, calls, ref):
        configure(R)
        counts = dict(histories=1, calls=0, failures_before_call=0, faults=0, states_compared=0, results_compared=0)
        seq = []
        failed = False
        if R.random() < 0.1:
            # very many calls before, most or all of them failing
            some = [(t, 88) for t in TABLES] + ([c for c in calls if len(c[0]) < 100] if R.random() < 0.3 else [])
            for _ in range(R.choice([150, 300, 600, 1200])):
                fmt(*R.choice(some))
                counts["burst_calls"] = counts.get("burst_calls", 0) + 1
            failed = True
        for _ in range(R.randint(20, 60)):
            if R.random() < 0.1:
                configure(R)
            c = R.choice(calls)
            before = state()
            counts["calls"] += 1
            counts["failures_before_call"] += failed
            if R.random() < 0.25 and len(c[0]) < 900:
                exc = R.choice(EXCS)
                n = R.choice([R.randint(1, 30), R.randint(1, 300), R.randint(1, 3000)])
                got, hit = sched.fault(lambda: self.raw(*c), n, exc)
                counts["faults"] += hit
                seq.append((c, "fault" if hit else ""))
                failed = failed or hit
            else:
                got = fmt(*c)
                counts["results_compared"] += 1
                seq.append((c, got[0]))
                failed = failed or got[0] != "ok"
                if got != ref[c]:
                    return counts, dict(what="the result depends on what happened before", input=c[0], width=str(c[1]), result=got, expected=ref[c],
                                        history=[(t[:60], str(w), how) for (t, w), how in seq[-12:]]), seq
            after = state()
            counts["states_compared"] += 1
            d = differs(before, after)
            if d:
                return counts, dict(what="process-wide state is changed by a call: " + d[0][0], input=c[0], width=str(c[1]), changed=d[:4], outcome=seq[-1][1]), seq
        counts["log_records"] = Count.n
        return counts, self.logs(counts, [(t[:60], str(w), how) for (t, w), how in seq[-12:]]), [(digest(c), how) for c, how in seq]

    def logs(self, counts, history):
        """Are the same messages logged as in a fresh process?"""
        for c, want in self.logged.items():
            got = records(c)
            counts["logs_compared"] = counts.get("logs_compared", 0) + 1
            if got != want:
                diff = [(a, b) for a, b in zip(got, want) if a != b][:3]
                return dict(what="what is logged depends on what happened before", input=c[0], width=str(c[1]), logged=len(got), expected=len(want), first_differences=repr(diff),
                            history=history)
        return None

    @staticmethod
    def raw(text, w):
        return sut.reformat_markdown_text(text, w)

    # -------------------------------------------------------------------- threads
    def threads(self, R, calls, ref):
        configure(R)
        # deep recursion depends on how deep the caller's stack is
        calls = [c for c in calls if ref[c][0] != "exc"] or [("a\n", 88)]
        for c in calls:
            ref.setdefault(c, ("ok", "a\n"))
        counts = dict(schedules=1, calls=0, switches=0, states_compared=0, results_compared=0)
        viols = []

        def job(seed):
            r = random.Random(seed)
            todo = [r.choice(calls) for _ in range(r.randint(2, 4))]

            def run():
                for c in todo:
                    got = fmt(*c)
                    counts["calls"] += 1
                    counts["results_compared"] += 1
                    if got != ref[c]:
                        viols.append(dict(what="the result depends on concurrent calls", input=c[0], width=str(c[1]), result=got, expected=ref[c]))
            return run

        jobs = [job(R.getrandbits(40)) for _ in range(R.choice([2, 2, 3, 5]))]
        own = {}
        if R.random() < 0.6:
            # the application changes levels while calls are in progress
            conf = random.Random(R.getrandbits(40))

            def app():
                for _ in range(conf.randint(1, 6)):
                    n = conf.choice([x for x in names() if x.startswith("markflow")] + [""])
                    own[n] = conf.choice([10, 20, 30, 40, 50])
                    (logging.getLogger(n) if n else logging.root).setLevel(own[n])
                    app_line()
            baton_box = []

            def app_line():
                b = baton_box[0]
                b.left = 1
                b.line(app.__code__, 0)
            jobs.append(app)
        R.shuffle(jobs)
        before = state()
        b = sched.Baton(random.Random(R.getrandbits(40)), jobs, R.choice([3, 20, 100, 400]))
        if own is not None and any(j.__name__ == "app" for j in jobs):
            baton_box.append(b)
        key = b.run()
        counts["switches"] = b.switches
        counts["schedules_given_up"] = int(b.free)
        if b.errors:
            raise RuntimeError("harness: " + b.errors[0])
        after = state()
        for n, level in own.items():
            k = "logger:" + n
            before[k] = (level,) + before[k][1:]
        counts["states_compared"] += 1
        d = differs(before, after)
        if d and not viols:
            viols.append(dict(what="process-wide state after concurrent calls is not the application's: " + d[0][0], changed=d[:4], input=calls[0][0],
                              set_by_application=own, schedule=b.trace[:40]))
        counts["log_records"] = Count.n
        return counts, viols[0] if viols else self.logs(counts, "%d threads" % len(jobs)), key

    # ---------------------------------------------------------- fresh processes
    def extra(self, tier, seed):
        """The same calls in other processes: hash seeds, locale, working directory."""
        R = random.Random("C18/%s" % seed)
        calls = []
        for _ in range(150 if tier == "quick" else 1500):
            t, w = short(R), R.choice([1, 10, 40, 88])
            if t.isprintable() or "\ud800" not in t:
                calls.append((t, w))
        data = json.dumps(calls)
        results = {}
        envs = [dict(PYTHONHASHSEED="0"), dict(PYTHONHASHSEED="1", LC_ALL="C", LANG="C", PYTHONUTF8="0"), dict(PYTHONHASHSEED="4242", TZ="Asia/Tokyo", COLUMNS="20"),
                dict(PYTHONHASHSEED="99", HOME="/nonexistent", TERM="dumb", NO_COLOR="1")]
        for j, env in enumerate(envs):
            def one(j=j, env=env):
                o = Obs(key=("process", j, digest(data)), fresh_processes=1)
                e = {k: v for k, v in os.environ.items() if not k.startswith("LC_")}
                e.update(env, MV_PATHS=json.dumps([VERIF, REPO]), PYTHONDONTWRITEBYTECODE="1")
                order = list(range(len(calls)))
                random.Random(j).shuffle(order)
                p = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=" + os.path.join(self.scratch, "pyc"), os.path.join(VERIF, "mv", "batch.py")],
                                   input=json.dumps([calls[x] for x in order]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                                   cwd=["/", VERIF, self.scratch, "/tmp"][j], timeout=100)
                if p.returncode:
                    raise RuntimeError(p.stderr.decode()[-500:])
                got = {x: r for x, r in zip(order, json.loads(p.stdout))}
                o.counts["results_compared"] = len(got)
                for x in sorted(got):
                    if x in results and results[x][1] != got[x]:
                        return o.violation("the result differs between processes", input=calls[x][0], width=str(calls[x][1]), result=got[x], expected=results[x][1],
                                           environment=env, other=envs[results[x][0]])
                    results.setdefault(x, (j, got[x]))
                return o
            yield "process%d" % j, one


CHECK = C18()
