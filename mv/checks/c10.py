"""C10: bullet lists keep items and nesting, with one bullet."""
from .. import doc, gen
from .c09 import ListCheck


class C10(ListCheck):
    id = "C10"
    rule = ("trees of bullet and ordered lists up to 5 deep, bullets uniform or mixed within a list, with paragraphs, code, headings, quotes and tables as "
            "content, in random source indentation; bullets, item count, item content, nesting and the two-column indentation in the "
            "output. Distinct by (structure, width); non-trivial: holds a bullet list")
    blocks = dict(para=20, ul=40, ol=10, quote=8, fence=6, icode=3, atx=3, setext=2, hr=2, table=2)
    n = dict(quick=7000, thorough=150000)
    reach = dict(bullet_lists=500, items=2000, mixed_sources=30, nested_docs=200)
    deep = dict(quick=4, thorough=5)

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        kw["mix"] = R.random() < 0.5
        return kw

    def judge(self, d, w, src, out, obs):
        obs.nontrivial = any(b.kind == "ul" for b in doc.walk(d))
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            if obs.nontrivial:
                self.bad(obs, "the lists are not where they were: " + self.mismatch, src, w, out)
            return
        for p in ps:
            b = p.block
            if b.kind != "ul":
                continue
            obs.counts["bullet_lists"] = obs.counts.get("bullet_lists", 0) + 1
            obs.counts["items"] = obs.counts.get("items", 0) + len(b.items)
            obs.counts["mixed_sources"] = obs.counts.get("mixed_sources", 0) + bool(b.mixable)
            marks = [m for m, _, _ in p.items]
            if marks != [b.bullet] * len(b.items):
                return self.bad(obs, "wrong bullets", src, w, out, expected=b.bullet, found=str(marks))
        self.items_ok(ps, "ul", obs, src, w, out)


CHECK = C10()
