"""C02: what formatting returns is a fixed point."""
from .. import gen, shrink, soup, sut
from ..base import Check
from ..run import Obs
from . import witnesses


class C02(Check):
    id = "C02"
    rule = ("any text: characters, fragment soup, mutated/truncated documents, well-formed documents and the repository's own Markdown, at "
            "widths 1..120 and inf, plus large documents that hold an unstable text, plus pinned texts whose first pass is unstable; every returned text is formatted again at the same "
            "width. Non-trivial: a result was returned and re-formatted; distinct by (text, width)")
    n = dict(quick=12000, thorough=400000)
    reach = dict(texts_large=50, returned=500, refused_unstable=3)

    def judge(self, text, w, kind):
        o = Obs(key=(text, w), nontrivial=False)
        o.counts["texts_" + kind] = 1
        k, out = sut.fmt(text, w)
        if k == "unstable":
            o.counts["refused_unstable"] = 1
            return o
        if k != "ok":
            o.counts["refused_or_failed"] = 1
            return o
        o.nontrivial = True
        o.counts["returned"] = 1
        o.counts["changed_by_formatting"] = int(out != text)
        if len(text) < 300:
            o.sample = dict(input=text, width=str(w), output=out)
        k2, out2 = sut.fmt(out, w)
        if (k2, out2) != ("ok", out):
            o.violation("a returned text is not a fixed point", input=text, width=str(w), output=out, again=out2, _w=w)
        return o

    def case(self, R, i, tier):
        kind, text = soup.anytext(R)
        if i % 40 == 7:
            # what is unstable must be refused as well in a large document
            size = R.choice([10 ** 3, 10 ** 4, 3 * 10 ** 4] + [10 ** 5] * (tier != "quick"))
            fill = []
            while sum(map(len, fill)) < size:
                k = R.randint(0, 3)
                fill.append(soup.document(R, size=1).rstrip() if k == 0 else " ".join(R.choice(gen.SAFE) for _ in range(R.choice([10, 200]))))
            text, widths = R.choice(witnesses.UNSTABLE)
            at = R.choice([0, len(fill), R.randint(0, len(fill))])
            fill.insert(at, text.rstrip("\n"))
            return self.judge("\n\n".join(fill) + "\n" * (1 + text.endswith("\n\n")), R.choice(widths), "large")
        return self.judge(text, soup.width(R), kind)

    def shrink(self, v):
        w = v["_w"]
        text = shrink.shrink_text(v["input"], lambda t: self.judge(t, w, "x").viol is not None)
        return self.judge(text, w, "x").viol

    def pinned(self):
        for j, (text, widths) in enumerate(witnesses.UNSTABLE):
            for w in widths:
                yield "unstable%d@%s" % (j, w), lambda t=text, w=w: self.judge(t, w, "pinned")


CHECK = C02()
