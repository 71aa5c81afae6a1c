"""C17: blocks do not influence each other."""
import random

from .. import doc, gen, sut
from ..base import Check, filler
from ..carve import separated
from ..run import Obs


class C17(Check):
    id = "C17"
    rule = ("sequences of 2..8 blocks of every kind (lists and quotes with nested content, closed code blocks, tables, headings, definitions), each in a "
            "random layout, joined by 0..4 blank lines (none where Markdown lets the block interrupt the one before); the output against the separately formatted blocks joined alike. Distinct by (structure, "
            "blank lines, width); non-trivial: at least two blocks")
    n = dict(quick=7000, thorough=150000)
    reach = dict(sequences=1000, blocks=4000, pairs=5000, pairs_without_blank=800)

    def case(self, R, i, tier):
        g = gen.Gen(R, maxdepth=R.choice([0, 1, 2, 3]), inline=R.choice([None, dict(w=1)]), blanks=(1, 1, 2, 3, 4), adjacent=R.choice([0, 0, 0.5]))
        n = R.choice([2, 2, 3, 4, 6, 8])
        seq = g.seq(dict(depth=0), n)
        w = R.choice(gen.WIDTHS)
        texts = []
        prev = None
        for blanks, b in seq:
            # (indented text behind a list would be part of it)
            lay = doc.Layout(random.Random(R.getrandbits(40)), R.choice([0, 0.5, 1]))
            texts.append((blanks, "\n".join(doc.emit_seq([(0, b)], lay, noindent=prev in ("ul", "ol") and "list"))))
            prev = b.kind
        return self.judge([b.kind for _, b in seq], texts, w, doc.shape(seq))

    def judge(self, kinds, texts, w, shape):
        o = Obs(key=(shape, [min(b, 3) for b, _ in texts], w), nontrivial=len(texts) > 1)
        src = ""
        want = []
        for n, (blanks, t) in enumerate(texts):
            src += ("\n" * (blanks + 1) if n else "") + t
            k, out = sut.fmt(t + "\n", w)
            if k != "ok":
                return o.violation("a well-formed block is refused (%s)" % k, input=t + "\n", width=str(w), error=out, _t=(kinds, texts, w, shape))
            body = out[:-1]
            want.append(("\n" * (blanks + 1) if n else "") + body)
        src += "\n"
        o.counts["sequences"] = 1
        o.counts["blocks"] = len(texts)
        o.counts["pairs"] = len(texts) - 1
        o.counts["pairs_without_blank"] = sum(b == 0 for b, _ in texts[1:])
        if len(src) < 300:
            o.sample = dict(input=src, width=str(w))
        k, out = sut.fmt(src, w)
        if k != "ok":
            return o.violation("a document is refused though its blocks are not (%s)" % k, input=src, width=str(w), error=out, _t=(kinds, texts, w, shape))
        # (a paragraph-final hard break keeps its spaces within a document only)
        strip = lambda t: "\n".join(li.rstrip() for li in t.split("\n")).rstrip("\n")  # noqa: E731
        if strip(out) != strip("".join(want)):
            return o.violation("a block is formatted differently next to others: " + "+".join(kinds), input=src, width=str(w), output=out,
                               separately="".join(want), _t=(kinds, texts, w, shape))
        return o

    def shrink(self, v):
        kinds, texts, w, shape = v.pop("_t")
        again = True
        while again:
            again = False
            for j in range(len(texts)):
                if len(texts) > 2:
                    o = self.judge(kinds[:j] + kinds[j + 1:], texts[:j] + texts[j + 1:], w, "")
                    if o.viol:
                        kinds, texts = kinds[:j] + kinds[j + 1:], texts[:j] + texts[j + 1:]
                        again = True
                        break
        v = self.judge(kinds, texts, w, "").viol
        v.pop("_t", None)
        return v


CHECK = C17()
