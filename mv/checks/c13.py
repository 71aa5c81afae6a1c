"""C13: headings in canonical form."""
import re

from .. import carve, doc, gen
from ..base import DocCheck


class C13(DocCheck):
    id = "C13"
    rule = ("ATX headings of every level and underlined headings of both kinds, of 0..25 pieces, indented and padded at random, with rules of any length, at "
            "top level and in lists and quotes, next to other blocks; the lines of each heading in the output. Distinct by "
            "(structure, width); non-trivial: holds a heading")
    blocks = dict(atx=40, setext=40, para=15, quote=8, ul=8, ol=8, fence=4, hr=4)
    refs = False
    carved = True
    n = dict(quick=8000, thorough=150000)
    reach = dict(atx=500, setext=500, wrapped=200, nested_docs=200, nospace=20)

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        kw["nospace"] = R.choice([0, 0.3])
        kw["near"] = R.choice([0.02, 0.1])
        return kw

    def judge(self, d, w, src, out, obs):
        obs.nontrivial = any(b.kind in ("atx", "setext") for b in doc.walk(d))
        if not obs.nontrivial:
            return
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            return self.bad(obs, "the headings are not where they were: " + self.mismatch, src, w, out)
        for p in ps:
            b = p.block
            if b.kind == "atx":
                obs.counts["atx"] = obs.counts.get("atx", 0) + 1
                obs.counts["nospace"] = obs.counts.get("nospace", 0) + bool(b.nospace)
                want = ("#" * b.level + " " + doc.plain(b.tokens)).rstrip()
                if p.lines != [want]:
                    return self.bad(obs, "an ATX heading is not in canonical form", src, w, out, found="\n".join(p.lines), expected=want)
            elif b.kind == "setext":
                obs.counts["setext"] = obs.counts.get("setext", 0) + 1
                text, rule = p.lines[:-1], p.lines[-1]
                obs.counts["wrapped"] = obs.counts.get("wrapped", 0) + (len(text) > 1)
                if p.token.tag != ("h1" if b.char == "=" else "h2") or set(rule) != {b.char}:
                    return self.bad(obs, "an underlined heading changed its level", src, w, out, found="\n".join(p.lines))
                if len(rule) != max(map(len, text)):
                    return self.bad(obs, "the underline does not fit the text", src, w, out, found="\n".join(p.lines))
                if "".join("".join(text).split()) != "".join(doc.plain(b.tokens).split()):
                    return self.bad(obs, "the text of a heading changed", src, w, out, found="\n".join(p.lines), expected=doc.plain(b.tokens))


CHECK = C13()
