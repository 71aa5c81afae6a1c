"""C06: inline pieces survive wrapping."""
import re

from .. import carve, doc, gen, inline
from ..base import DocCheck
from . import witnesses
from .. import sut
from ..run import Obs


class C06(DocCheck):
    id = "C06"
    rule = ("paragraphs and headings made of words, code spans, links, images, emphasis, escapes, HTML line breaks and punctuation, glued or "
            "spaced, at top level and in lists and quotes; the output text of each is matched against its pieces with either a space or a "
            "line break where a space was, nothing where none was. Distinct by (structure, width); non-trivial: at least one piece other than a word")
    blocks = dict(para=50, atx=8, setext=14, quote=8, ul=10, ol=8)
    carved = True
    refs = True
    code_indent = True
    n = dict(quick=9000, thorough=250000)
    reach = dict(paragraphs=500, code_spans=300, destinations=200, html_breaks=20, glued=300)
    widths = [1, 2, 3, 5, 8, 10, 12, 15, 20, 25, 30, 40, 50, 60, 88, 120, gen.math.inf]

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        if R.random() < 0.4:
            kw["inline"] = dict(w=20, code=8, codeglue=8, link=6, codelink=4, badge=2, img=3, ref=2, esc=4, odd=6, br=2, em=3, haz=1)
        else:
            kw.pop("inline", None)
        return kw

    def judge(self, d, w, src, out, obs):
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            obs.nontrivial = False
            # the structure is another one: is any inline code torn apart?
            self.bad(obs, "paragraphs or headings are not where they were: " + self.mismatch, src, w, out)
            return
        odd = 0
        for p in ps:
            b = p.block
            if b.kind == "para":
                segs, lines = b.segs, p.lines
                if segs[-1][1] == "  ":
                    segs = segs[:-1] + [(segs[-1][0], "")]
            elif b.kind in ("atx", "setext"):
                segs = [(b.tokens, "")] if b.tokens else []
                lines = p.lines[:-1] if b.kind == "setext" else [re.sub(r"^#+ ?", "", p.lines[0])]
            else:
                continue
            if not segs:
                continue
            toks = [t for s, _ in segs for t in s]
            odd += sum(k not in ("w",) for _, _, k in toks)
            obs.counts["paragraphs"] = obs.counts.get("paragraphs", 0) + 1
            for name, n in (("code_spans", sum(k == "code" for _, _, k in toks)), ("destinations", sum(k == "dest" for _, _, k in toks)),
                            ("html_breaks", sum(k == "br" for _, _, k in toks)), ("glued", sum(s == "" for s, _, _ in toks[1:]))):
                obs.counts[name] = obs.counts.get(name, 0) + n
            text = "\n".join(lines).rstrip(" ")
            if not re.fullmatch(inline.pattern(segs), text):
                self.bad(obs, "inline pieces were torn apart, joined or changed", src, w, out, expected=" ".join(doc.plain(s) for s, _ in segs), found=text)
                return
        obs.nontrivial = odd > 0

    def known(self):
        return {k: (lambda t=t, w=w: " ".join(sut.fmt(t, w)[1].split()) != " ".join(t.split())) for k, (t, w) in witnesses.KNOWN_INLINE.items()}

    def pinned(self):
        for j, (text, widths) in enumerate(witnesses.INLINE):
            for w in widths:
                yield "inline%d@%s" % (j, w), lambda t=text, w=w: self._pin(t, w)

    def _pin(self, t, w):
        o = Obs(key=(t, w), pinned_compared=1)
        k, out = sut.fmt(t, w)
        if k != "ok" or re.split("[ \n]+", out.strip().replace("](\n", "](").replace("][\n", "][")) != re.split("[ \t]+", t):
            o.violation("words were torn apart, joined or changed", input=t, width=str(w), output=out)
        return o


CHECK = C06()
