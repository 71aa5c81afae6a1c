"""C09: ordered lists are numbered consecutively from their first number."""
from .. import doc, gen
from ..base import DocCheck

WORDS = dict(w=1)


def plain_of(seq):
    """The letters of a sequence of blocks, for recognising an item's content."""
    parts = []
    for b in doc.walk(seq):
        if b.kind == "para":
            parts += [t for toks, _ in b.segs for _, t, _ in toks]
        elif b.kind in ("atx", "setext"):
            parts += [t for _, t, _ in b.tokens]
        elif b.kind in ("fence", "icode"):
            parts += ([b.info] if b.kind == "fence" else []) + b.lines
        elif b.kind == "table":
            parts += [c for r in [b.header] + b.rows for c in r]
    return [c for c in "".join(parts) if c.isalpha()]


class ListCheck(DocCheck):
    carved = True
    refs = False
    inline = WORDS

    def make(self, R, i, tier):
        kw = self.gen_kw(R, tier)
        kw["maxdepth"] = R.choice([1, 1, 2, 3, self.deep[tier]])
        g = gen.Gen(R, **kw)
        self.tweak(g, R)
        d = g.doc()
        from .. import carve
        return carve.separated(d, self.fill)

    @staticmethod
    def fill():
        from ..base import filler
        return filler()

    def tweak(self, g, R):
        pass

    def items_ok(self, ps, kind, obs, src, w, out):
        """Every item has its own content."""
        for p in ps:
            if p.block.kind != kind:
                continue
            for it, (mark, info, lines) in zip(p.block.items, p.items):
                got = [c for c in "".join(lines) if c.isalpha()]
                if got != plain_of(it):
                    self.bad(obs, "an item has other content", src, w, out, item="\n".join(lines))
                    return False
        return True


class C09(ListCheck):
    id = "C09"
    rule = ("ordered lists of 1..120 items starting at 0..999999980 (around powers of ten), numbered consecutively, all alike or at random in the "
            "source, nested in lists and quotes, with paragraphs, code, headings, quotes, tables and lists as content; numbers, item count, item content "
            "and the column of every continuation line in the output. Distinct by (structure, width); non-trivial: holds an ordered list")
    blocks = dict(para=20, ol=40, ul=8, quote=8, fence=6, icode=3, atx=3, setext=2, hr=2, table=2)
    n = dict(quick=7000, thorough=150000)
    reach = dict(ordered_lists=500, items=2000, width_changes=100, nested_docs=200)

    def tweak(self, g, R):
        if R.random() < 0.3:
            g.nitems = lambda: R.choice([1, 2, 5, 11, 12, 25, 101, 120])
            g.size = 1
            g.maxdepth = R.choice([1, 1, 2]) if R.random() < 0.3 else 1

    def judge(self, d, w, src, out, obs):
        obs.nontrivial = any(b.kind == "ol" for b in doc.walk(d))
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            if obs.nontrivial:
                self.bad(obs, "the lists are not where they were: " + self.mismatch, src, w, out)
            return
        for p in ps:
            b = p.block
            if b.kind != "ol":
                continue
            obs.counts["ordered_lists"] = obs.counts.get("ordered_lists", 0) + 1
            obs.counts["items"] = obs.counts.get("items", 0) + len(b.items)
            want = [b.start + j for j in range(len(b.items))]
            obs.counts["width_changes"] = obs.counts.get("width_changes", 0) + (len(str(want[0])) != len(str(want[-1])))
            marks = [m for m, _, _ in p.items]
            if marks != ["%d." % n for n in want]:
                return self.bad(obs, "wrong numbers", src, w, out, expected=str(want), found=str(marks))
        self.items_ok(ps, "ol", obs, src, w, out)


CHECK = C09()
