"""C14: block quotes keep depth and content."""
import random
import re

from .. import carve, doc, gen, sut
from ..base import DocCheck

MARKS = re.compile(r"(?:> ?)*")


class C14(DocCheck):
    id = "C14"
    rule = ("block quotes of every content, nested to 5, in lists and holding lists, tight and spaced markers, lazy continuation lines, next to other "
            "blocks; every output line of a quote carries the markers of its depth, and its content equals what formatting that content on its own "
            "at the width left by the markers gives. Distinct by (structure, width); non-trivial: holds a quote")
    blocks = dict(para=30, quote=30, ul=8, ol=8, fence=6, icode=3, atx=4, setext=4, hr=3, table=2)
    refs = False
    carved = True
    deep = dict(quick=4, thorough=5)
    n = dict(quick=7000, thorough=150000)
    reach = dict(quotes=1000, quote_lines=3000, content_compared=500, nested_quotes=200, lazy_sources=100, blank_edges=100)

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        kw["maxdepth"] = R.choice([1, 1, 2, 3, self.deep[tier]])
        if R.random() < 0.5:
            kw["inline"] = dict(w=1)
        return kw

    def judge(self, d, w, src, out, obs):
        quotes = [b for b in doc.walk(d) if b.kind == "quote"]
        obs.nontrivial = bool(quotes)
        if not quotes:
            return
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            return self.bad(obs, "the quotes are not where they were: " + self.mismatch, src, w, out)
        if any(li.startswith(">") and not nx.lstrip().startswith(">") and nx.strip() for li, nx in zip(src.split("\n"), src.split("\n")[1:])):
            obs.counts["lazy_sources"] = 1
        for p in ps:
            b = p.block
            if b.kind != "quote":
                continue
            obs.counts["quotes"] = obs.counts.get("quotes", 0) + 1
            obs.counts["nested_quotes"] = obs.counts.get("nested_quotes", 0) + ("quote" in p.path)
            obs.counts["quote_lines"] = obs.counts.get("quote_lines", 0) + len(p.lines)
            # (carve has checked that every line is marked, uniformly)
            pre = "> " if b.spaced else ">"
            inner = "\n".join(li[len(pre):] if li != ">" else "" for li in p.lines) + "\n"
            obs.counts["blank_edges"] = obs.counts.get("blank_edges", 0) + bool(b.lead or b.trail)
            body = inner.split("\n")[b.lead:-1 - b.trail]
            if len(inner.split("\n")) != b.lead + len(body) + b.trail + 1 or any(x for x in inner.split("\n")[:b.lead]) or body and not (body[0] and body[-1]):
                return self.bad(obs, "the blank lines at the edges of the quote changed", src, w, out, inside=inner)
            inner = "\n".join(body) + "\n"
            k, alone = sut.fmt(doc.emit(b.kids, random.Random(len(src)), messy=0.3), doc.sub(p.width, len(pre)))
            if k != "ok":
                obs.counts["alone_refused"] = obs.counts.get("alone_refused", 0) + 1
                continue
            obs.counts["content_compared"] = obs.counts.get("content_compared", 0) + 1
            if alone.rstrip() != inner.rstrip():
                return self.bad(obs, "the content is formatted differently than on its own", src, w, out, inside=inner, alone=alone)


CHECK = C14()
