"""C04: content is conserved."""
import re

from .. import doc, htmlcmp, shrink, soup, sut
from ..base import DocCheck
from ..carve import MD
from ..run import Obs
from . import witnesses


def letters(text):
    return [c for c in text if c.isalpha()]


def stream(text):
    """All content a CommonMark parser sees, without white space."""
    env = {}
    parts = []
    for t in MD.parse(text, env):
        if t.type == "inline":
            parts.append(t.content)
        elif t.type in ("fence", "code_block", "html_block"):
            parts += [t.info, t.content]
    refs = env.get("references", {})
    return "".join("".join(parts).split()), sorted((k, v["href"], " ".join(v["title"].split())) for k, v in refs.items())


class C04(DocCheck):
    id = "C04"
    rule = ("half: any text for which a result is returned: the sequence of letters (str.isalpha) of input and output; half: well-formed "
            "documents: the stream of all characters of inline text, code, info strings and of the link reference definitions that a "
            "CommonMark parser sees in input and output, white space aside. Non-trivial: compared; distinct by text or structure, and width")
    n = dict(quick=12000, thorough=300000)
    reach = dict(letters_compared=5000, wellformed_compared=200)

    def judge(self, d, w, src, out, obs):
        self.law(src, w, out, obs)
        if obs.viol:
            return
        obs.counts["wellformed_compared"] = 1
        a, b = stream(src), stream(out)
        obs.counts["characters_compared"] = len(a[0])
        if a != b:
            n = next((j for j, (x, y) in enumerate(zip(a[0], b[0])) if x != y), min(len(a[0]), len(b[0])))
            self.bad(obs, "content changed", src, w, out, at_in=a[0][max(0, n - 20):n + 20], at_out=b[0][max(0, n - 20):n + 20],
                     definitions_in=repr(a[1])[:300] if a[1] != b[1] else "same", definitions_out=repr(b[1])[:300] if a[1] != b[1] else "same")

    def law(self, src, w, out, obs):
        a, b = letters(src), letters(out)
        obs.counts["letters_compared"] = len(a)
        if a != b:
            n = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            obs.violation("the sequence of letters changed", input=src, width=str(w), output=out, at_in="".join(a[n:n + 30]), at_out="".join(b[n:n + 30]))

    def text(self, text, w, kind):
        o = Obs(key=(text, w))
        o.counts["texts_" + kind] = 1
        k, out = sut.fmt(text, w)
        if k != "ok":
            o.nontrivial = False
            return o
        if len(text) < 200:
            o.sample = dict(input=text, width=str(w))
        self.law(text, w, out, o)
        if o.viol:
            o.viol["_w"] = w
        return o

    def case(self, R, i, tier):
        if i % 2:
            return super().case(R, i, tier)
        kind, text = soup.anytext(R)
        return self.text(text, soup.width(R), kind)

    def shrink(self, v):
        if "_shrink" in v:
            return super().shrink(v)
        w = v["_w"]
        return self.text(shrink.shrink_text(v["input"], lambda t: self.text(t, w, "x").viol is not None), w, "x").viol

    def pinned(self):
        for name, text, widths in witnesses.HTML:
            for w in widths:
                yield "%s@%s" % (name, w), lambda t=text, w=w: self.text(t, w, "pinned")


CHECK = C04()
