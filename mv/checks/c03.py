"""C03: every text is formatted or refused with a documented error."""
import signal

from .. import gen, shrink, soup, steps, sut
from ..base import DocCheck
from ..run import Obs
from . import witnesses

SECONDS = 10


class Slow(BaseException):
    pass


def _slow(*_):
    raise Slow


class C03(DocCheck):
    id = "C03"
    rule = ("half: any text (characters incl. odd Unicode separators, fragment soup, mutations, truncations at every kind of point); half: "
            "well-formed documents, which must not be refused; widths 1..120 and inf. A call that takes seconds is repeated under a step "
            "counter. Non-trivial: every finished call; distinct by text or structure, and width")
    n = dict(quick=14000, thorough=400000)
    reach = dict(returned=500, wellformed=200, refused_table=20, nested_deep=20)
    refused_is_violation = True
    case_seconds = 60

    def judge(self, d, w, src, out, obs):
        obs.counts["wellformed"] = 1
        obs.counts["returned"] = 1

    def text(self, text, w, kind):
        o = Obs(key=(text, w))
        o.counts["texts_" + kind] = 1
        old = signal.signal(signal.SIGALRM, _slow)
        rest = signal.setitimer(signal.ITIMER_REAL, SECONDS)
        try:
            k, out = sut.fmt(text, w)
        except Slow:
            k, out = "slow", ""
        finally:
            signal.signal(signal.SIGALRM, old)
            signal.setitimer(signal.ITIMER_REAL, rest[0])
        if k == "slow":
            o.counts["slow"] = 1
            budget = 20000 * (len(text) + 100)
            used = steps.count(text, w, budget)
            if used is None or used >= budget:
                o.violation("no end in sight: more than %d steps for %d characters" % (budget, len(text)), input=text, width=str(w), _w=w)
            return o
        o.counts[{"ok": "returned", "table": "refused_table", "unstable": "refused_unstable", "exc": "undocumented"}[k]] = 1
        if len(text) < 200:
            o.sample = dict(input=text, width=str(w), outcome=k)
        if k == "exc":
            o.violation("undocumented exception: " + out.split(":")[0], input=text, width=str(w), error=out, _w=w)
        elif k == "ok" and not isinstance(out, str):
            o.violation("the result is not a string", input=text, width=str(w), _w=w)
        return o

    def case(self, R, i, tier):
        if R.random() < 0.004:
            return self._wf(*self.nested(R))
        if i % 2:
            return super().case(R, i, tier)
        kind, text = soup.anytext(R)
        return self.text(text, soup.width(R), kind)

    def shrink(self, v):
        if "_shrink" in v:
            return super().shrink(v)
        if "_w" not in v:
            return None
        w = v["_w"]
        head = v["what"].split(":")[0]

        def fails(t):
            o = self.text(t, w, "x")
            return o.viol is not None and o.viol["what"].split(":")[0] == head

        if "no end" not in head:
            return self.text(shrink.shrink_text(v["input"], fails), w, "x").viol

    DEEP = 99

    def nested(self, R):
        """Quotes and lists nested up to (not including) a hundred levels."""
        n, unit = R.randint(20, self.DEEP), [R.choice([">", "> ", "> ", "- ", "* ", "1. ", "12. "]) for _ in range(R.choice([1, 1, 2, 3]))]
        if ">" in unit:
            unit = [">"]
        marks = [unit[j % len(unit)] for j in range(n)]
        head = "".join(marks)
        rest = "".join(m if m[0] == ">" else " " * len(m) for m in marks)
        text = head + R.choice(["a", "# a", "`a` b"])
        if R.random() < 0.4:
            text += "\n" + rest + "c"
        if R.random() < 0.3:
            text += "\n" + rest.rstrip() + "\n" + rest + "d"
        if R.random() < 0.3:
            text += "\n\nb"
        return text + "\n", R.choice([1, 20, 88, 1000, gen.math.inf])

    def pinned(self):
        for marks in (["> "], [">"], ["- "], ["1. "], ["> ", "- "], ["1. ", "> "], ["- ", "1. "]):
            for n in (60, self.DEEP):
                text = "".join(marks[j % len(marks)] for j in range(n)) + "a\n"
                yield "nested%d%s" % (n, marks), lambda t=text: self._wf(t, 88)
        for j, text in enumerate(witnesses.RAISED):
            for w in (1, 20, 88, gen.math.inf):
                yield "raised%d@%s" % (j, w), lambda t=text, w=w: self.text(t, w, "pinned")
        for j, (text, widths) in enumerate(witnesses.REFUSED):
            for w in widths:
                yield "refused%d@%s" % (j, w), lambda t=text, w=w: self._wf(t, w)

    def _wf(self, t, w):
        o = Obs(key=(t, w), wellformed=1)
        o.counts["nested_deep"] = int(t[:40].count("> ") + t[:40].count(". ") + t[:40].count("- ") + t[:40].count(">>") > 7)
        k, out = sut.fmt(t, w)
        if k != "ok":
            o.violation("a well-formed document is refused (%s)" % k, input=t, width=str(w), error=out)
        return o

    def known(self):
        return {k: (lambda t=t, w=w: sut.fmt(t, w)[0] != "ok") for k, (t, w) in witnesses.KNOWN_REFUSED.items()}


CHECK = C03()
