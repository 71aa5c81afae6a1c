"""C07: prose is filled to the line length."""
from .. import carve, doc, gen, inline
from ..base import DocCheck

INF = doc.INF


class C07(DocCheck):
    id = "C07"
    rule = ("paragraphs and underlined headings at top level and nested in lists and quotes, at every width 1..40 and several up to 120 and inf; each "
            "output line is compared with the pieces it holds: not longer than the width left unless it is a single piece, and the first "
            "piece of the next line would not have fit. Distinct by (structure, width); non-trivial: lines with a decided break")
    blocks = dict(para=50, setext=10, quote=10, ul=12, ol=10)
    carved = True
    refs = False
    n = dict(quick=9000, thorough=250000)
    widths = list(range(1, 41)) + [50, 60, 72, 80, 88, 88, 88, 100, 120, INF, INF]
    reach = dict(paragraphs=500, breaks_judged=2000, nested_paragraphs=200, infinite=20)

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        if R.random() < 0.6:
            kw["inline"] = dict(w=1)
        return kw

    def judge(self, d, w, src, out, obs):
        obs.nontrivial = False
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            return
        for p in ps:
            b = p.block
            if b.kind == "para":
                segs = b.segs
                if segs[-1][1] == "  ":
                    segs = segs[:-1] + [(segs[-1][0], "")]
                lines = list(p.lines)
                if b.segs[-1][1] == "  " and lines:
                    lines[-1] = lines[-1].rstrip(" ")
            elif b.kind == "setext":
                segs, lines = [(b.tokens, "")], p.lines[:-1]
            else:
                continue
            lay = inline.layout(segs, lines)
            if lay is None:
                obs.counts["unaligned"] = obs.counts.get("unaligned", 0) + 1
                continue
            rows, forced = lay
            obs.counts["paragraphs"] = obs.counts.get("paragraphs", 0) + 1
            if p.path:
                obs.counts["nested_paragraphs"] = obs.counts.get("nested_paragraphs", 0) + 1
            if w == INF:
                obs.counts["infinite"] = obs.counts.get("infinite", 0) + 1
            for n, row in enumerate(rows):
                length = len(lines[n].rstrip(" "))
                if length > p.width and len(row) > 1:
                    return self.bad(obs, "a line is too long", src, w, out, line=lines[n], length=length, available=str(p.width))
                if n + 1 < len(rows) and n not in forced:
                    obs.counts["breaks_judged"] = obs.counts.get("breaks_judged", 0) + 1
                    obs.nontrivial = True
                    sep, text = rows[n + 1][0]
                    need = length + (sep == " ") + len(text)
                    if need <= p.width:
                        return self.bad(obs, "a line ends early", src, w, out, line=lines[n], next_piece=text, would_be=need, available=str(p.width))
            if len(rows) == 1:
                obs.nontrivial = True


CHECK = C07()
