"""C08: white space and line endings of the output."""
from .. import shrink, soup, sut
from ..base import Check
from ..run import Obs


class C08(Check):
    id = "C08"
    rule = ("any text in which a result is returned, written with each of the line endings \\n, \\r\\n, \\r, a mixture of them, and with and without a "
            "final line ending; every output line (the last one has no trailing spaces at all) is inspected and the outputs of all spellings compared. Non-trivial: a result was "
            "returned; distinct by (text, width)")
    n = dict(quick=9000, thorough=250000)
    reach = dict(lines_seen=3000, spellings=1500, hard_breaks_seen=20)

    def judge(self, text, w, R, kind):
        o = Obs(key=(text, w), nontrivial=False)
        o.counts["texts_" + kind] = 1
        k, out = sut.fmt(text, w)
        if k != "ok":
            o.counts["refused"] = 1
        else:
            o.nontrivial = True
            if len(text) < 200:
                o.sample = dict(input=text, width=str(w))
            if not out.endswith("\n") or out.endswith("\n\n"):
                return o.violation("the output does not end with exactly one newline", input=text, width=str(w), output=out, _w=w)
            if out[:-1].rstrip() != out[:-1]:
                return o.violation("the last line has trailing white space", input=text, width=str(w), output=out, _w=w)
            if "\r" in out:
                return o.violation("the output holds a carriage return", input=text, width=str(w), output=out, _w=w)
            o.counts["lines_seen"] = out.count("\n")
            for li in out.split("\n"):
                s = li.rstrip()
                if li != s:
                    if li != s + "  " or not s.strip(" >"):
                        return o.violation("trailing white space", input=text, width=str(w), output=out, line=li, _w=w)
                    o.counts["hard_breaks_seen"] = o.counts.get("hard_breaks_seen", 0) + 1
        base = text.replace("\r\n", "\n").replace("\r", "\n")
        spellings = [("\\r\\n", base.replace("\n", "\r\n")), ("\\r", base.replace("\n", "\r")), ("\\n", base)]
        if base.count("\n") > 1:
            # ("\r" directly before "\n" would be one line ending)
            mix = []
            for c in base:
                if c == "\n":
                    c = R.choice(["\n", "\r\n", "\r"] if not mix or mix[-1] != "\r" else ["\r\n", "\r"])
                mix.append(c)
            spellings.append(("mixed", "".join(mix)))
        if base and base[-1] != "\n":
            spellings.append(("terminated", base + "\n"))
        elif len(base) > 1 and base[-2] != "\n":
            spellings.append(("unterminated", base[:-1]))
        for name, t in spellings:
            o.counts["spellings"] = o.counts.get("spellings", 0) + 1
            k2, out2 = sut.fmt(t, w)
            if k2 != k or k == "ok" and out2 != out:
                return o.violation("line endings matter: " + name, input=text, other=t, width=str(w), output=out, output_other=out2, _w=w)
        return o

    def case(self, R, i, tier):
        kind, text = soup.anytext(R)
        return self.judge(text, soup.width(R), R, kind)

    def shrink(self, v):
        import random
        w = v["_w"]
        what = v["what"]

        def f(t):
            return self.judge(t, w, random.Random(0), "x").viol
        text = shrink.shrink_text(v["input"], lambda t: (f(t) or {}).get("what") == what)
        return f(text)


CHECK = C08()
