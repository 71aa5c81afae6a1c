"""C24: insignificant layout does not matter."""
import random

from .. import doc, gen, shrink, sut
from ..base import DocCheck
from ..run import Obs


class C24(DocCheck):
    id = "C24"
    rule = ("pairs of random layouts of the same document (different wrapping, padding, indents, list numbers, rule and underline lengths, laziness, trailing "
            "blanks), and a first formatting at another width (documents without titles of definitions); both must be formatted to the same text. "
            "Distinct by (structure, width); non-trivial: the two sources differ")
    n = dict(quick=8000, thorough=200000)
    reach = dict(pairs_differing=1000, rewidths=1000, nested_docs=200)

    def run(self, d, w, es):
        R = random.Random(es)
        a = doc.emit(d, random.Random(R.getrandbits(40)), messy=R.choice([0, 0.3, 1]), code_indent=True)
        b = doc.emit(d, random.Random(R.getrandbits(40)), messy=R.choice([0.3, 1, 1]), code_indent=True)
        w1 = R.choice(gen.WIDTHS)
        o = Obs(key=(doc.shape(d), w), nontrivial=a != b)
        o.counts["nested_docs"] = int(doc.depth(d) > 1)
        if es % 40 == 0 and len(a) < 300:
            o.sample = dict(first=a, second=b, width=str(w))
        ka, oa = sut.fmt(a, w)
        kb, ob = sut.fmt(b, w)
        if ka != "ok" and kb != "ok":
            o.counts["refused"] = 1
            o.nontrivial = False
            return o
        o.counts["pairs_differing"] = int(a != b)
        if (ka, oa) != (kb, ob):
            return o.violation("two layouts of one document are formatted differently", input=a, other=b, width=str(w), output=oa, output_other=ob)
        titled = any(x.kind == "lrd" and x.title for x in doc.walk(d))
        if not titled:
            k1, o1 = sut.fmt(a, w1)
            if k1 == "ok":
                o.counts["rewidths"] = 1
                k2, o2 = sut.fmt(o1, w)
                if (k2, o2) != (ka, oa):
                    return o.violation("formatting at another line length first matters", input=a, first_width=str(w1), width=str(w), first_output=o1,
                                       output=oa, output_other=o2)
        return o


CHECK = C24()
