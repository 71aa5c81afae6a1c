"""Checks whose executions format generated documents."""
import random

from . import carve as carve_mod
from . import doc, gen, shrink, sut
from .run import Obs

FILLER = "filler"


def filler():
    return doc.B("para", segs=[([("", FILLER, "w")], "")])


class Check:
    level = "exploration"
    reach = {}
    n = dict(quick=4000, thorough=60000)
    wall = dict(quick=25, thorough=600)
    assumptions = []


class DocCheck(Check):
    """Documents from the model; `judge(d, width, src, out, obs)` is the monitor."""

    inline = None          # weights of inline pieces (None: the default mix)
    blocks = None          # weights of blocks
    drop = ()              # kinds of blocks to leave out
    refs = True
    carved = False         # does judge need lists and quotes to be told apart?
    deep = dict(quick=3, thorough=4)
    messy = (0, 0.3, 1)
    widths = gen.WIDTHS
    refused_is_violation = True
    code_indent = False    # may lines inside of code spans be indented in the source?

    def gen_kw(self, R, tier):
        kw = {}
        if R.random() < 0.5:
            kw["size"] = R.choice([1, 2])
        if self.inline is not None:
            kw["inline"] = self.inline
        elif R.random() < 0.3:
            kw["inline"] = dict(w=1)
        kw["maxdepth"] = R.choice([0, 1, 2, 2, 3, self.deep[tier]])
        kw["refs"] = self.refs
        blocks = dict(gen.Gen.BLOCKS if self.blocks is None else self.blocks)
        for k in self.drop:
            blocks.pop(k, None)
        kw["blocks"] = blocks
        return kw

    def make(self, R, i, tier):
        g = gen.Gen(R, **self.gen_kw(R, tier))
        d = g.doc()
        if self.carved:
            d = carve_mod.separated(d, filler)
        return d

    def source(self, d, R):
        return doc.emit(d, R, messy=R.choice(self.messy), code_indent=self.code_indent)

    def width(self, R):
        return R.choice(self.widths)

    def case(self, R, i, tier):
        d = self.make(R, i, tier)
        w = self.width(R)
        es = R.getrandbits(60)
        obs = self.run(d, w, es)
        if obs.viol is not None:
            obs.viol["_shrink"] = (d, w, es)
        return obs

    def run(self, d, w, es):
        src = self.source(d, random.Random(es))
        obs = Obs(key=(doc.shape(d), w), sample=None)
        kinds = [b.kind for b in doc.walk(d)]
        obs.counts["blocks"] = len(kinds)
        for k in set(kinds):
            obs.counts["docs_with_" + k] = 1
        dep = doc.depth(d)
        if dep > 1:
            obs.counts["nested_docs"] = 1
        if es % 50 == 0 and len(src) < 600:
            obs.sample = dict(input=src, width=str(w))
        kind, out = sut.fmt(src, w)
        if kind != "ok":
            obs.counts["refused"] = 1
            obs.nontrivial = False
            if self.refused_is_violation:
                obs.violation("a well-formed document is refused (%s)" % kind, input=src, width=str(w), error=out)
            return obs
        obs.counts["formatted"] = 1
        obs.counts["lines_seen"] = out.count("\n")
        self.judge(d, w, src, out, obs)
        return obs

    def judge(self, d, w, src, out, obs):
        raise NotImplementedError

    def bad(self, obs, what, src, w, out, **kw):
        return obs.violation(what, input=src, width=str(w), output=out, **kw)

    def pieces(self, d, out, w, obs):
        """carve, or None (counted) when the structure is not there."""
        try:
            return carve_mod.carve_all(d, out, w)
        except carve_mod.Mismatch as m:
            obs.counts["unaligned"] = 1
            obs.sample = None
            self.mismatch = str(m)
            return None

    def shrink(self, v):
        d, w, es = v.pop("_shrink")
        what = v["what"]

        def fails(t):
            if not gen.valid(t):
                return False
            if self.carved and doc.shape(carve_mod.separated(t, filler)) != doc.shape(t):
                return False
            o = self.run(t, w, es)
            return o.viol is not None and o.viol["what"].split(":")[0] == what.split(":")[0]

        d = shrink.shrink(d, fails, 6)
        o = self.run(d, w, es)
        return o.viol if o.viol else v
