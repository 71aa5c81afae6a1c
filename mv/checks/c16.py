"""C16: thematic breaks fill the line length."""
from .. import carve, doc, gen
from ..base import DocCheck


class C16(DocCheck):
    id = "C16"
    rule = ("thematic breaks of each character, solid or spaced at random, spaced with tabs, 3..130 long, indented 0..3, at top level and in lists and quotes, next to "
            "paragraphs that hold rule-like words, lists and headings, at every width 1..40 and up to 120 and inf; each break in the output and "
            "that there are exactly those. Distinct by (structure, width); non-trivial: holds a thematic break")
    blocks = dict(hr=40, para=30, ul=10, ol=6, quote=8, setext=5, atx=3, fence=3)
    inline = dict(w=30, haz=8)
    refs = False
    carved = True
    n = dict(quick=8000, thorough=150000)
    widths = list(range(1, 41)) + [50, 72, 80, 88, 88, 100, 120, doc.INF, doc.INF]
    reach = dict(breaks=2000, spaced=300, nested_breaks=200, narrow=100, infinite=50)

    def gen_kw(self, R, tier):
        return dict(super().gen_kw(R, tier), near=0.3)

    def judge(self, d, w, src, out, obs):
        obs.nontrivial = any(b.kind == "hr" for b in doc.walk(d))
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            return self.bad(obs, "the breaks are not where they were: " + self.mismatch, src, w, out)
        obs.counts["spaced"] = sum(" " in li.strip() and set(li.strip()) <= set("*-_ ") for li in src.split("\n"))
        for p in ps:
            if p.block.kind != "hr":
                continue
            obs.counts["breaks"] = obs.counts.get("breaks", 0) + 1
            obs.counts["nested_breaks"] = obs.counts.get("nested_breaks", 0) + bool(p.path)
            obs.counts["narrow"] = obs.counts.get("narrow", 0) + (p.width <= 3)
            obs.counts["infinite"] = obs.counts.get("infinite", 0) + (p.width == doc.INF)
            n = 3 if p.width == doc.INF else max(3, p.width)
            if p.lines != [p.block.char * n]:
                return self.bad(obs, "a thematic break does not fill its line", src, w, out, found="\n".join(p.lines), expected=p.block.char * n)


CHECK = C16()
