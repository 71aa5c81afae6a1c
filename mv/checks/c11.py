"""C11: tables keep their cells and come out rectangular and aligned."""
import re

from .. import carve, doc, gen
from ..base import DocCheck


def split_row(line):
    """The raw cells of a row that is closed on both sides."""
    cells, cur, esc = [], "", False
    for c in line:
        if c == "|" and not esc:
            cells.append(cur)
            cur = ""
        else:
            cur += c
        esc = c == "\\" and not esc
    return cells[1:], cur, cells[:1]


class C11(DocCheck):
    id = "C11"
    rule = ("tables of 1..12 columns and 0..12 rows, every mix of alignments, cells that are empty, escaped pipes, code, non-ASCII, up to long texts, padded and "
            "ruled at random, with missing outer closing pipes, at top level and in lists and quotes; every cell, every padding, every rule "
            "and every line length of the output rows. Distinct by (structure, sizes, width); non-trivial: holds a table")
    blocks = dict(table=60, para=10, quote=6, ul=6, ol=6, atx=2)
    inline = dict(w=1)
    refs = False
    carved = True
    n = dict(quick=7000, thorough=150000)
    reach = dict(tables=1000, cells=5000, empty_cells=50, escaped_pipes=50, centered=200, nested_tables=100)

    def make(self, R, i, tier):
        kw = self.gen_kw(R, tier)
        kw["maxdepth"] = R.choice([0, 0, 0, 1, 2])
        g = gen.Gen(R, **kw)
        if R.random() < 0.2:
            orig = g.table

            def wide(ctx):
                b = orig(ctx)
                n = R.randint(1, 12)
                cell = lambda: re.sub(r"\\+$", "x", g.cell())  # noqa: E731
                b.aligns = [R.choice("nlrc") for _ in range(n)]
                b.header = [cell() or "h" for _ in range(n)]
                b.rows = [[cell() for _ in range(n)] for _ in range(R.randint(0, 12))]
                return b
            g.table = wide
        return carve.separated(g.doc(), self.fill)

    @staticmethod
    def fill():
        from ..base import filler
        return filler()

    def judge(self, d, w, src, out, obs):
        tabs = [b for b in doc.walk(d) if b.kind == "table"]
        obs.nontrivial = bool(tabs)
        obs.key = (doc.shape(d), w, [(len(b.aligns), len(b.rows), "".join(b.aligns)) for b in tabs])
        if not tabs:
            return
        ps = self.pieces(d, out, w, obs)
        if ps is None:
            return self.bad(obs, "the tables are not where they were: " + self.mismatch, src, w, out)
        for p in ps:
            b = p.block
            if b.kind != "table":
                continue
            n = len(b.aligns)
            obs.counts["tables"] = obs.counts.get("tables", 0) + 1
            obs.counts["nested_tables"] = obs.counts.get("nested_tables", 0) + bool(p.path)
            obs.counts["centered"] = obs.counts.get("centered", 0) + b.aligns.count("c")
            rows = [b.header] + b.rows
            for r in rows:
                obs.counts["cells"] = obs.counts.get("cells", 0) + n
                obs.counts["empty_cells"] = obs.counts.get("empty_cells", 0) + r.count("")
                obs.counts["escaped_pipes"] = obs.counts.get("escaped_pipes", 0) + sum("\\|" in c for c in r)
            widths = [max([len(r[j]) for r in rows] + [b.aligns[j] == "c"]) for j in range(n)]

            def say(what, **kw):
                return self.bad(obs, what, src, w, out, table="\n".join(p.lines), **kw)
            if len(p.lines) != len(rows) + 1:
                return say("wrong number of rows", expected=len(rows) + 1)
            if len(set(map(len, p.lines))) != 1:
                return say("rows of different lengths")
            for li, r in zip([p.lines[0]] + p.lines[2:], rows):
                cells, rest, before = split_row(li)
                if rest or before != [""] or len(cells) != n:
                    return say("a row has another number of cells", row=li)
                for j, (raw, want) in enumerate(zip(cells, r)):
                    if raw.strip() != want:
                        return say("a cell changed", row=li, cell=raw, expected=want)
                    if len(raw) != widths[j] + 2 or raw[0] != " " or raw[-1] != " ":
                        return say("a cell is not padded to its column", row=li, cell=raw, column_width=widths[j])
                    left = len(raw) - len(raw.lstrip()) - 1
                    right = len(raw) - len(raw.rstrip()) - 1
                    a = b.aligns[j]
                    if a == "n":
                        a = "c" if r is b.header else "l"
                    if want and not (left == 0 if a == "l" else right == 0 if a == "r" else right - left in (0, 1)):
                        return say("a cell is not aligned as its column", row=li, cell=raw, align=a)
            cells, rest, before = split_row(p.lines[1])
            if rest or before != [""] or len(cells) != n:
                return say("the divider has another number of cells")
            for j, raw in enumerate(cells):
                a = b.aligns[j]
                want = (":" if a in "lc" else "-") + "-" * widths[j] + (":" if a in "rc" else "-")
                if raw != want:
                    return say("the divider does not fit its column", cell=raw, expected=want)


CHECK = C11()
