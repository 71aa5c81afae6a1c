"""C25: formatting cost stays bounded on large and adversarial texts."""
import math
import signal

from .. import child, families, probes, soup, steps, sut
from ..base import Check
from ..run import Obs

BUDGET = 40_000_000     # executed lines of MarkFlow
CPU = 40                # seconds (under the counter; several times the slowest)
SIZES = dict(FLAT=(60, 120, 240), DEEP=(8, 16, 32), UNIT=(12, 24, 48), PREFIX=(5, 10, 20))
BIG = dict(FLAT=(125, 250, 500, 1000), DEEP=(8, 16, 32, 64), UNIT=(12, 24, 48, 96), PREFIX=(6, 12, 24, 48))
# Largest allowed degree of growth: in the length of the text, which at least doubles
DEGREE = dict(FLAT=2.3, DEEP=3.6, UNIT=2.4, PREFIX=3.6)
PROBE = 10              # seconds of CPU for a text of at most some hundred characters (a few milliseconds are usual)
FLOOR = 60_000          # fewer steps than this say nothing about growth


class Hang(BaseException):
    pass


def measure(text, width):
    """Steps, or None when the CPU time ran out before the budget (work outside of Python code)."""
    def work():
        def stop(*_):
            raise Hang
        signal.signal(signal.SIGVTALRM, stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
        try:
            return steps.count(text, width, BUDGET)
        except Hang:
            return None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    try:
        return child.call(work, CPU * 6)
    except child.Failed as e:
        if "timeout" in str(e):
            return None
        raise


def hangs(batch):
    """How many of the texts were formatted, and the one that took more than PROBE seconds of CPU (or None)."""
    def work():
        def stop(*_):
            raise Hang
        signal.signal(signal.SIGVTALRM, stop)
        done = 0
        for t, w in batch:
            signal.setitimer(signal.ITIMER_VIRTUAL, PROBE)
            try:
                sut.fmt(t, w)
            except Hang:
                return done, (t, w)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            done += 1
        return done, None
    return child.call(work, 850)


class C25(Check):
    id = "C25"
    rule = ("%d named families of growing texts (every construct repeated, nested, lengthened, left open) and random ones (a random fragment repeated, a random prefix "
            "of quote and list markers nested), at line lengths 1, 20, 88 and infinity; executed lines of MarkFlow counted at doubling sizes, and CPU time bounded for what "
            "happens outside of Python code. Short probes against catastrophic matching: every one of %d heads, a unit repeated dozens of times (%d units, and random pairs), "
            "every one of %d tails, each with a CPU limit. Distinct by (family, line length); non-trivial: enough steps to tell the growth" % (len(families.FLAT) + len(families.DEEP), len(probes.HEADS), len(probes.UNITS), len(probes.TAILS)))
    n = dict(quick=540, thorough=5000)
    wall = dict(quick=120, thorough=880)
    case_seconds = 900
    reach = dict(families=150, probes=100_000, sizes=400, steps=1_000_000)
    assumptions = ["work is measured in executed source lines of MarkFlow; time inside of built-in functions only by a CPU limit"]

    named = [("FLAT", n) for n in families.FLAT] + [("DEEP", n) for n in families.DEEP]

    def case(self, R, i, tier):
        if i < 2 * len(self.named) if tier == "quick" else i < 4 * len(self.named):
            kind, name = self.named[i % len(self.named)]
            w = (88, R.choice([1, 20, math.inf]), 10, 1)[i // len(self.named)]
            f = getattr(families, kind)[name]
        elif i < self.first_random(tier):
            j = i - self.first_random(tier) + len(probes.UNITS) * self.rounds(tier)
            unit = probes.UNITS[j % len(probes.UNITS)]
            n, w = ((40, 88), (200, 88), (60, 1), (60, math.inf))[j // len(probes.UNITS)]
            return self.probe(unit, n if "\n" not in unit else n // 2, w)
        elif R.random() < 0.15:
            return self.probe(R.choice(probes.UNITS) + R.choice(probes.UNITS), R.choice([16, 30]), R.choice([1, 20, 88, math.inf]))
        elif R.random() < 0.6:
            kind, w = "UNIT", R.choice([1, 10, 88, math.inf])
            unit = soup.frags(R) if R.random() < 0.6 else soup.document(R, size=R.choice([1, 2]))
            unit = unit[:R.choice([20, 60, 200])]
            sep = R.choice(["", "\n", "\n\n", " "])
            head, tail = R.choice(["", "> ", "- ", "`", "[a]: /u '", "```\n", "*", "a\n"]), R.choice(["", "\n", "x\n", "\n- a\n"])
            name = repr((head, unit, sep, tail))
            f = lambda n: head + (unit + sep) * n + tail  # noqa: E731
        else:
            kind, w = "PREFIX", R.choice([1, 20, 88, math.inf])
            pre = "".join(R.choice(["> ", "> ", ">", "- ", "* ", "1. ", "  ", "+ "]) for _ in range(R.randint(1, 3)))
            mid = "".join(c for c in soup.frags(R)[:40])
            tail = R.choice(["", "lazy\n", "> x\n", "- x\n"])
            many = R.choice([0, 1, 1])
            name = repr((pre, mid, tail, many))
            f = lambda n: pre * n + mid + "\n" + tail * (n if many else 1)  # noqa: E731
        o = self.grow(kind, name, f, w, (SIZES if tier == "quick" else BIG)[kind])
        return o

    @staticmethod
    def rounds(tier):
        return 1 if tier == "quick" else 4

    def first_random(self, tier):
        return (2 if tier == "quick" else 4) * len(self.named) + self.rounds(tier) * len(probes.UNITS)

    def probe(self, unit, n, w):
        o = Obs(key=("PROBE", unit, n, w))
        done, bad = hangs(probes.texts(unit, n, w))
        o.counts["probes"] = done
        o.sample = dict(unit=unit, n=n, width=str(w), heads=len(probes.HEADS), tails=len(probes.TAILS))
        if bad:
            o.violation("more than %d s of CPU for %d characters" % (PROBE, len(bad[0])), input=bad[0], width=str(w))
        return o

    def grow(self, kind, name, f, w, sizes):
        o = Obs(key=(kind, name, w), families=1)
        o.nontrivial = False
        seen = []
        for n in sizes:
            t = f(n)
            used = measure(t, w)
            o.counts["sizes"] = o.counts.get("sizes", 0) + 1
            o.counts["steps"] = o.counts.get("steps", 0) + (used or 0)
            if used is None:
                return o.violation("more than %d s of CPU for %d characters: %s" % (CPU, len(t), kind), input=t[:3000], width=str(w), family=name, n=n, steps=seen)
            seen.append((len(t), used))
            if used >= BUDGET:
                if len(t) < 20000:
                    return o.violation("more than %d steps for %d characters: %s" % (BUDGET, len(t), kind), input=t[:3000], width=str(w), family=name, n=n, steps=seen)
                break
            if used > BUDGET / 8:
                break
        o.sample = dict(family=name[:200], width=str(w), steps=seen)
        worst = []
        for (la, sa), (lb, sb) in zip(seen, seen[1:]):
            if sb >= FLOOR and lb > la:
                o.nontrivial = True
                worst.append(math.log(sb / max(sa, 1)) / math.log(max(2, lb / la)))
        # (the first doubling can be a threshold effect; the last must keep to the degree)
        if worst and worst[-1] > DEGREE[kind]:
            return o.violation("steps grow with degree %.1f: %s" % (worst[-1], kind), input=f(sizes[0])[:3000], width=str(w), family=name, steps=seen)
        return o


CHECK = C25()
