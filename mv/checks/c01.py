"""C01: the output renders to the same HTML as the input."""
from .. import doc, htmlcmp
from ..base import DocCheck
from ..run import Obs
from .. import sut
from . import witnesses


class C01(DocCheck):
    id = "C01"
    rule = ("random trees of the documented block types (weights per type, nesting to 4, adjacency with and without blank lines) written "
            "down in random layouts, formatted at widths 1..120 and inf, plus the pinned texts that once rendered differently; input and "
            "output are rendered by markdown-it-py and commonmark.py and the HTML compared. Non-trivial: formatted and compared; distinct "
            "by (block structure, width)")
    n = dict(quick=9000, thorough=250000)
    reach = dict(formatted=300, docs_with_quote=50, docs_with_ul=50, docs_with_table=20, nested_docs=100)
    assumptions = ["A difference counts only if both CommonMark implementations see it (markdown-it-py alone for tables)."]

    def judge(self, d, w, src, out, obs):
        tables = any(b.kind == "table" for b in doc.walk(d))
        if not htmlcmp.same(src, out, tables):
            self.bad(obs, "the rendered HTML changed", src, w, out, html_in=htmlcmp.mi(src, tables), html_out=htmlcmp.mi(out, tables))

    def pinned(self):
        for name, text, widths in witnesses.HTML:
            for w in widths:
                yield "%s@%s" % (name, w), lambda t=text, w=w: self._pin(t, w)

    def _pin(self, t, w):
        o = Obs(key=("pin", t, w), pinned_compared=1)
        k, out = sut.fmt(t, w)
        if k != "ok":
            return Obs(nontrivial=False, refused=1)
        if not htmlcmp.same(t, out, "|" in t):
            self.bad(o, "the rendered HTML changed", t, w, out)
        return o

    def known(self):
        return {k: (lambda t=t, w=w: not htmlcmp.same(t, sut.fmt(t, w)[1], False)) for k, (t, w) in witnesses.KNOWN_HTML.items()}


CHECK = C01()
