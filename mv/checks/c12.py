"""C12: malformed tables are refused with the right line."""
import re

from .. import doc, gen, soup, sut
from ..base import Check
from ..run import Obs

LAST = ("para", "atx", "setext", "fence", "hr")


class C12(Check):
    id = "C12"
    rule = ("documents with one table made malformed: a row with too many or too few cells, or a divider that is missing, wrong or has another "
            "number of cells; at top level and nested, preceded by every other kind of block; the error and the line and counts it names. "
            "The same document with the table left well-formed must be formatted. Distinct by (defect, nesting, preceding blocks, width); "
            "non-trivial: refused")
    n = dict(quick=7000, thorough=150000)
    reach = dict(row_defects=500, divider_defects=300, nested=200, several_bad_rows=200, wellformed_twins=1000)

    def case(self, R, i, tier):
        g = gen.Gen(R, blocks=dict(para=20, atx=5, setext=4, fence=8, icode=4, quote=8, ul=8, ol=8, table=4, lrd=4, hr=4),
                    maxdepth=R.choice([0, 1, 2]), refs=False)
        before = g.seq(dict(depth=0), R.randint(1, 4)) if R.random() < 0.8 else []
        after = g.seq(dict(depth=0), R.randint(1, 3)) if R.random() < 0.5 else []
        n = R.choice([1, 2, 2, 3, 4, 6])
        t = g.table(dict(depth=0))
        # (a row that looks like a divider could stand in for a missing one)
        cell = lambda: re.sub(r"\A *(:?-+:?)? *\Z", "c", re.sub(r"\\+$", "x", g.cell()).replace("\\|", "p"))  # noqa: E731
        t.aligns = [R.choice("nlrc") for _ in range(n)]
        t.header = [cell() for _ in range(n)]
        t.rows = [[cell() for _ in range(n)] for _ in range(R.randint(0, 5))]
        lines = doc.emit_seq([(0, t)], doc.Layout(R, R.choice([0, 1])), True)
        good = list(lines)
        lines = [str(x) for x in lines]
        defect = R.choice(["more", "less", "row-first", "divider-text", "divider-count", "no-divider", "divider-colon"])
        bad_row = counts = None
        several = 0
        if defect in ("more", "less", "row-first"):
            if not t.rows:
                t.rows = [["c"] * n]
                lines.append("|" + "|".join(" c " for _ in range(n)) + "|")
                good.append(lines[-1])
            bad_row = 2 if defect == "row-first" else R.randrange(2, len(lines))
            m = n + R.randint(1, 3) if defect != "less" or n == 1 else R.randint(1, n - 1)
            if defect == "row-first" and n > 1 and R.random() < 0.5:
                m = R.randint(1, n - 1)
            counts = (n, m)
            lines[bad_row] = "|" + "|".join(" %s " % cell() for _ in range(m)) + "|"
            # further bad rows behind it, with other counts: the first one is named
            for later in range(bad_row + 1, len(lines)):
                if R.random() < 0.4:
                    m2 = R.choice([x for x in range(1, n + 4) if x not in (n, m)])
                    lines[later] = "|" + "|".join(" %s " % cell() for _ in range(m2)) + "|"
                    several = 1
        elif defect == "divider-text":
            parts = ["---"] * n
            parts[R.randrange(n)] = R.choice(["abc", "- -", "-a-", "::", "", ":", "-:-", "=="])
            lines[1] = "|" + "|".join(parts) + "|"
        elif defect == "divider-colon":
            parts = [":-:"] * n
            parts[R.randrange(n)] = R.choice(["::-", "-::", ":-:-", "—"])
            lines[1] = "|" + "|".join(parts) + "|"
        elif defect == "divider-count":
            m = n + R.randint(1, 2) if n == 1 or R.random() < 0.5 else R.randint(1, n - 1)
            lines[1] = "|" + "|".join(["---"] * m) + "|"
        else:
            del lines[1]
            if len(lines) > 1 and R.random() < 0.3:
                lines = lines[:1]
        nest = R.choice(["", "", "", "> ", "- ", "1. ", "> - ", "- > "])
        # what comes before the table in the same list or quote
        intro = []
        if nest and R.random() < 0.6:
            one = nest if nest != "1. " or R.random() < 0.5 else "%d. " % R.randint(0, 9)
            cont = re.sub(r"[-0-9]\.?( ?)", lambda m: " " * len(m.group()), one)
            for _ in range(R.randint(1, 3)):
                intro.append(one + "alpha")
                intro += R.choice([[], [], [cont + "beta"], [cont + "beta", cont + "gamma"], [cont.rstrip(), cont + "gamma"]])
                if nest[-2] != "-" or R.random() < 0.3 or nest == "> ":
                    intro.append(cont.rstrip())
        first = nest
        rest = nest.replace("- ", "  ").replace("1. ", "   ")

        def text(tab, gap):
            src = [str(x) for x in doc.emit_seq(before, doc.Layout(R2(), 0.5))]
            if src:
                src += [""] * gap
            src += intro
            at = len(src)
            src += [(first if j == 0 else rest) + li for j, li in enumerate(tab)]
            if after:
                src += [""] + [str(x) for x in doc.emit_seq(after, doc.Layout(R2(), 0.5))]
            return "\n".join(src) + "\n", at
        seed = R.getrandbits(40)
        # a malformed table right below another block is one as well
        gap = R.choice([1, 1, 2, 3, 0 if not nest and before and before[-1][1].kind in LAST else 1])
        import random
        R2 = lambda: random.Random(seed)  # noqa: E731
        # a list right before a nested list would be one list
        if before and nest and before[-1][1].kind in ("ul", "ol", "quote"):
            before = before + [(1, doc.B("para", segs=[([("", "sep", "w")], "")]))]
        if after and after[0][1].kind in ("table", "icode"):
            after = []
        w = R.choice(gen.WIDTHS)
        src, at = text(lines, gap)
        o = Obs(key=(defect, nest, doc.shape(before), len(intro), w))
        o.counts["later_items"] = int(bool(intro))
        if len(src) < 300:
            o.sample = dict(input=src, defect=defect, width=str(w))
        k, out = sut.fmt(src, w)
        if bad_row is not None:
            o.counts["row_defects"] = 1
            o.counts["several_bad_rows"] = several
        else:
            o.counts["divider_defects"] = 1
        o.counts["nested"] = int(bool(nest))
        if k == "ok":
            return o.violation("a malformed table is formatted (%s)" % defect, input=src, width=str(w), output=out)
        if k != "table":
            return o.violation("a malformed table is not refused with MarkdownFormatException (%s)" % k, input=src, width=str(w), error=out)
        if bad_row is not None:
            line = at + bad_row + 1
            nums = [int(x) for x in re.findall(r"\d+", out)]
            if not {line, counts[0], counts[1]} <= set(nums):
                return o.violation("the error does not name the line and the counts", input=src, width=str(w), error=out, line=line,
                                   expected=counts[0], actual=counts[1])
            m = re.search(r"[Ll]ine (\d+)", out)
            if m and int(m.group(1)) != line:
                return o.violation("the error names another line", input=src, width=str(w), error=out, line=line)
        twin, _ = text(good, gap or 1)
        k, out = sut.fmt(twin, w)
        o.counts["wellformed_twins"] = 1
        if k == "table":
            return o.violation("a well-formed table is refused", input=twin, width=str(w), error=out)
        return o


CHECK = C12()
