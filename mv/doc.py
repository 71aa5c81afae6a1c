"""Documents as trees, how they may be written down, and what MarkFlow documents it
makes of them.

A document is generated as a tree of blocks.  `emit` writes a tree down as Markdown
source in one of the many layouts that Markdown allows for it; `expect` is an
independent, executable reading of MarkFlow's README/IMPLEMENTATION: the text the
formatter is documented to produce for that tree at a given line length.  Nothing in
here imports or looks at MarkFlow.
"""
import math
import re

INF = math.inf

# ------------------------------------------------------------------- inline text
# Inline content is a list of tokens (sep, text, kind).  sep tells how the token is
# attached to the one before: ' ' separated by a space, '' glued to it, '^' glued to it
# but a line may be broken there (in front of a link destination).
BR = re.compile(r"<br ?/?>\Z")
LONE = re.compile(r"(?:[*+]|[0-9]{1,9}\.)\Z")   # alone on a line, these don't interrupt a paragraph
NEARLY = re.compile(r"[-=*_+~.]{2,}\Z")
HAZARD = re.compile(r"[#>|]|~~~|(?:\++|-+|\*+|_+|=+|[0-9]+[.)])\Z")


def hazard(word):
    """Could a line that starts with this piece be taken for another block?"""
    if word.startswith("```"):
        return "`" not in word.lstrip("`")
    return HAZARD.match(word) is not None


def odd_backslash(word):
    return (len(word) - len(word.rstrip("\\"))) % 2 == 1


def clusters(tokens):
    """Group tokens into pieces that must stay on one line: [(sep, text)]."""
    out = []
    prev = None
    for sep, text, _ in tokens:
        if not out or sep in " ^" and sep or BR.match(text) or (prev and BR.match(prev)):
            out.append([sep, text])
        else:
            out[-1][1] += text
        prev = text
    res = []
    for sep, text in out:
        if res and (hazard(text) or odd_backslash(res[-1][1])):
            res[-1][1] += (" " if sep == " " else "") + text
        else:
            res.append([sep, text])
    return res


def fill(pieces, width):
    """Greedy filling of pieces into lines of at most width characters."""
    lines = [""]
    for sep, text in pieces:
        cand = lines[-1] + (" " if sep == " " and lines[-1] else "") + text
        if not lines[-1] or len(cand) <= width:
            lines[-1] = cand
        else:
            lines.append(text)
        if BR.match(text):
            lines.append("")
    if not lines[-1]:
        lines.pop()
    return lines


def plain(tokens):
    """The inline text on one line."""
    return "".join((" " if i and s == " " else "") + t for i, (s, t, _) in enumerate(tokens))


# ------------------------------------------------------------------------ blocks
class B:
    """A block; kind plus whatever the kind needs."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return "B(%s)" % ", ".join("%s=%r" % kv for kv in self.__dict__.items())


# para:    segs [(tokens, hard)] hard in '', '  ', '\\' ; final: '' or '  '
# atx:     level, tokens, nospace
# setext:  char, tokens
# fence:   char, n, info, lines, closed
# icode:   lines
# quote:   spaced, kids (seq), lead, trail (marked blank lines around the kids)
# ul:      bullet, items [seq]     ol: start, items [seq]
# table:   aligns, header, rows    cells are strings
# lrd:     label, dest, own_dest, title, title_next
# hr:      char
# seq: list of (blanks_before, block)


def sub(width, n):
    return width if width == INF else max(width - n, 1)


def expect_seq(seq, width):
    lines = []
    for blanks, block in seq:
        lines += [""] * blanks
        lines += expect_block(block, width)
    return lines


def expect_block(b, width):
    return globals()["x_" + b.kind](b, width)


def x_para(b, width):
    out = []
    for tokens, hard in b.segs:
        toks = tokens
        if hard == "\\":
            s, t, k = tokens[-1]
            toks = tokens[:-1] + [(s, t + "\\", k)]
        lines = fill(clusters(toks), width)
        if hard == "  ":
            lines[-1] += "  "
        out += lines
    return out


def x_atx(b, width):
    return [("#" * b.level + " " + plain(b.tokens)).rstrip()]


def x_setext(b, width):
    lines = fill(clusters(b.tokens), width)
    return lines + [b.char * max(map(len, lines))]


def x_fence(b, width):
    f = b.char * b.n
    gap = " " if b.info.startswith(b.char) else ""
    return [f + gap + b.info] + [li.rstrip() for li in b.lines] + [f]


def x_icode(b, width):
    return [("    " + li).rstrip() for li in b.lines]


def x_quote(b, width):
    pre = "> " if b.spaced else ">"
    lines = expect_seq(b.kids, sub(width, len(pre)))
    return [(pre + li) if li else ">" for li in [""] * b.lead + lines + [""] * b.trail]


def _x_item(marker, seq, width):
    if not seq:
        return [marker.rstrip()]
    lines = expect_seq(seq, sub(width, len(marker)))
    return [marker + lines[0]] + [" " * len(marker) + li if li else "" for li in lines[1:]]


def x_ul(b, width):
    return [li for it in b.items for li in _x_item(b.bullet + " ", it, width)]


def x_ol(b, width):
    return [
        li
        for i, it in enumerate(b.items)
        for li in _x_item("%d. " % (b.start + i), it, width)
    ]


def _pad(text, width, align):
    space = width - len(text)
    if align == "r":
        return " " * space + text
    if align == "c":
        return " " * (space // 2) + text + " " * (space - space // 2)
    return text + " " * space


def x_table(b, width):
    ws = [
        max([len(r[i]) for r in [b.header] + b.rows] + [a == "c"])
        for i, a in enumerate(b.aligns)
    ]

    def row(cells, default):
        return "|" + "|".join(
            " %s " % _pad(c, w, a if a != "n" else default)
            for c, w, a in zip(cells, ws, b.aligns)
        ) + "|"

    div = "|" + "|".join(
        {"n": "-%s-", "l": ":%s-", "r": "-%s:", "c": ":%s:"}[a] % ("-" * w)
        for a, w in zip(b.aligns, ws)
    ) + "|"
    return [row(b.header, "c"), div] + [row(r, "l") for r in b.rows]


def x_lrd(b, width):
    first = "[%s]:" % b.label
    lines = [first, b.dest] if b.own_dest else [first + " " + b.dest]
    if not b.title:
        return lines
    pieces = clusters(b.title)
    if not b.title_next and len(lines[-1]) + 1 + len(pieces[0][1]) <= width:
        return lines[:-1] + fill([["", lines[-1]]] + [[" ", t] for _, t in pieces], width)
    return lines + fill(pieces, width)


def x_hr(b, width):
    return [b.char * (3 if width == INF else max(3, width))]


def expect(seq, width):
    """The documented output for a whole document."""
    return "\n".join(expect_seq(seq, width)).rstrip() + "\n"


# ---------------------------------------------------------------------- emission
class Layout:
    """Choices for writing a tree down.  `plain` is the most regular layout."""

    def __init__(self, R, messy=1.0, code_indent=False):
        self.R = R
        self.m = messy
        # may lines that begin inside of a code span be indented?  (Parsers disagree
        # about these, but the specification does not.)
        self.code_indent = code_indent
        # how many blank lines hold spaces
        self.blank = R.choice([0.1, 0.1, 0.6]) if messy > 0 else 0

    def p(self, prob):
        return self.m > 0 and self.R.random() < prob * self.m

    def indent(self, prob=0.2):
        return self.R.randint(1, 3) if self.p(prob) else 0

    def first(self, noindent, prob=0.2):
        """Indentation of a block's first line: none, or less than belongs to the list right before it."""
        return 0 if noindent is True else min(self.indent(prob), 1 if noindent else 3)


class L(str):
    """A source line; lz/lq: may lose list indentation / quote markers (lazy)."""

    lz = False
    lq = False


def mk(text, lz=False, lq=False):
    r = L(text)
    r.lz, r.lq = lz, lq
    return r


def break_tokens(tokens, lay, codes=None, stiff=None):
    """Write tokens down on lines, breaking at places where any layout may.

    codes collects the numbers of the lines that begin inside of a code span, stiff
    those of lines that must not be lazy (none are made when it is not given)."""
    codes = set() if codes is None else codes
    lone = False
    R = lay.R
    width = R.choice([5, 15, 30, 60, 88, 1000]) if lay.m > 0 else 1000
    brk = R.choice([0, 0, 0.1, 0.5]) if lay.m > 0 else 0
    multi = R.choice([0, 0, 0.1]) if lay.m > 0 else 0
    lines = [""]
    for i, (sep, text, kind) in enumerate(tokens):
        # the text that would begin the new line
        glued = text
        for s2, t2, _ in tokens[i + 1:]:
            if s2 == "":
                glued += t2
            else:
                break
        can = (
            sep in (" ", "^") and sep != "" and i > 0
            and not hazard(glued) and not hazard(text) and not odd_backslash(lines[-1])
            and not lines[-1].endswith("  ")
        )
        free = sep == " " and not odd_backslash(lines[-1]) and not lines[-1].endswith("  ")
        if lone:
            lone = False
            lines.append(text if kind != "code" else "")
            if kind == "code":
                _code(lines, text, brk, R, codes)
            continue
        if stiff is not None and i > 0 and free and LONE.match(text) and lines[-1].strip() and lay.p(0.3) and _can_follow(tokens, i + 1):
            stiff.add(len(lines))
            lines.append(text)
            lone = True
            continue
        want = can and (
            R.random() < brk if sep == " " else R.random() < brk / 3
        ) or can and sep == " " and (len(lines[-1]) + len(text) > width or NEARLY.match(text) and lay.p(0.5))
        if want:
            if lay.p(0.1):
                lines[-1] += " "
            lines.append(text if kind != "code" else "")
            if kind == "code":
                _code(lines, text, brk, R, codes)
        else:
            if sep == " " and i > 0:
                # (a tab between two words makes them a single one)
                tab = kind == "code" or tokens[i - 1][2] == "code" or tokens[i - 1][2] == "dest" and tokens[i - 1][1].count("(") < 2
                lines[-1] += R.choice([" \t", "\t"]) if tab and R.random() < multi else " " + (R.choice([" ", "  ", "   ", " ", "\t ", "  \t "]) if R.random() < multi else "")
            if kind == "code":
                _code(lines, text, brk, R, codes)
            else:
                lines[-1] += text
    return lines


def _can_follow(tokens, i):
    """Can token i begin a line?"""
    if i >= len(tokens) or tokens[i][0] != " ":
        return False
    glued = tokens[i][1]
    for s, t, _ in tokens[i + 1:]:
        if s != "":
            break
        glued += t
    return not hazard(glued) and not hazard(tokens[i][1])


def _code(lines, text, brk, R, codes):
    """Append a code span, maybe broken at a single space inside."""
    # (a line that starts with an unclosed code span of three backticks is a fence)
    parts = re.split(r"(?<=\S) (?=\S)", text) if not text.startswith("```") else [text]
    lines[-1] += parts[0]
    for prev, p in zip(parts, parts[1:]):
        if R.random() < brk and not hazard(p.split(" ")[0]) and not odd_backslash(prev):
            codes.add(len(lines))
            lines.append(p)
        else:
            lines[-1] += " " + p


def emit_seq(seq, lay, noindent=False, spans=None):
    """spans collects (blank lines before, block, lines) when it is given."""
    out = []
    prev = None
    for blanks, block in seq:
        for _ in range(blanks):
            out.append(mk(" " * lay.R.randint(1, 5) if lay.p(lay.blank) else ""))
        # A block right behind a list must not be indented or it would be part of it.
        after_list = prev is not None and prev.kind in ("ul", "ol")
        lines = globals()["e_" + block.kind](block, lay, noindent if noindent and prev is None else "list" if after_list else False)
        out += lines
        if spans is not None:
            spans.append((blanks, block, sum(li.count("\n") + 1 for li in lines)))
        prev = block
    return out


def e_para(b, lay, noindent):
    R = lay.R
    out = []
    for si, (tokens, hard) in enumerate(b.segs):
        codes, stiff = set(), set()
        lines = break_tokens(tokens, lay, codes, stiff)
        for li, line in enumerate(lines):
            ind = 0 if li in codes and not lay.code_indent else lay.indent(0.1) if out else lay.first(noindent, 0.1)
            last = li == len(lines) - 1
            if last and hard:
                line += hard + (" " * R.randint(1, 3) if hard == "  " and lay.p(0.3) else "")
            elif last and lay.p(0.1) and not odd_backslash(line):
                line += " "
            lazy = bool(out) and li not in codes and li not in stiff
            out.append(mk(" " * ind + line, lz=lazy, lq=lazy))
    return out


def e_atx(b, lay, noindent):
    R = lay.R
    text = plain(b.tokens)
    sp = "" if b.nospace else " " * (R.randint(2, 4) if lay.p(0.2) else 1)
    line = "#" * b.level + (sp + text if text else "")
    return [mk(" " * lay.first(noindent) + line + (" " * R.randint(1, 3) if lay.p(0.2) else ""))]


def e_setext(b, lay, noindent):
    R = lay.R
    codes = set()
    lines = break_tokens(b.tokens, lay, codes, set())
    out = []
    for i, line in enumerate(lines):
        ind = 0 if i in codes and not lay.code_indent else lay.indent(0.1) if i else lay.first(noindent, 0.1)
        out.append(mk(" " * ind + line))
    n = R.randint(1, 12) if lay.m > 0 else max(map(len, lines))
    out.append(mk(" " * lay.indent(0.1) + b.char * n + (" " if lay.p(0.1) else "")))
    return out


def e_fence(b, lay, noindent):
    R = lay.R
    f = b.char * b.n
    gap = " " * R.randint(1, 2) if b.info and lay.p(0.3) else " " if b.info.startswith(b.char) else ""
    # (the indentation of an opening fence is taken off the code by a renderer, so the code is to have none; nor may
    # lines less indented than it look like fences, see nested-fence-indents in known_findings.txt)
    ind = 0 if any(li[:1].isspace() or li[:3] in ("```", "~~~") for li in b.lines) else lay.first(noindent)
    out = [mk(" " * ind + f + gap + b.info + (" " if lay.p(0.1) else ""))]
    out += [mk(li + (" " * R.randint(1, 3) if lay.p(0.05) else "")) for li in b.lines]
    if b.closed:
        over = getattr(b, "over", 0)
        # (how far the closing fence is indented is looked at relative to the opening one)
        out.append(mk(" " * (over + ind if over else max(ind, lay.indent())) + f + (b.char * R.randint(1, 3) if lay.p(0.15) else "") + (" " if lay.p(0.1) else "")))
    return out


def e_icode(b, lay, noindent):
    return [
        mk(("    " + li if li else " " * lay.R.randint(0, 6) * (lay.m > 0)) + (" " * lay.R.randint(1, 2) if li and lay.p(0.05) else ""))
        for li in b.lines
    ]


def e_quote(b, lay, noindent):
    R = lay.R
    pre = "> " if b.spaced else ">"
    # The first line decides about the spacing of the markers; it is not to be indented
    # unless it is code.
    kids = [mk("")] * b.lead + emit_seq(b.kids, lay, noindent=True) + [mk("")] * b.trail
    qind = lay.first(noindent, 0.1)
    out = []
    for i, line in enumerate(kids):
        ind = qind if i == 0 else 0 if lay.m == 0 else R.choice([qind, 0])
        if not line.strip():
            out.append(mk(" " * ind + ">" + (" " * R.randint(1, 2) if lay.p(0.3) else "")))
        elif line.lq and lay.p(0.2):
            # lazy continuation line; keep clear of the four spaces of code
            # (if another quote marker remains, it is bound to its list)
            text = line.lstrip()
            lz = not text.startswith(">")
            out.append(mk(text if lay.p(0.8) else " " * R.randint(0, 3) + text, lz, True))
        else:
            out.append(mk(" " * ind + pre + line, False, line.lq))
    return out


def _e_list(b, lay, noindent, markers):
    R = lay.R
    out = []
    limit = 0  # content indent of the entry before
    for i, (item, marker) in enumerate(zip(b.items, markers)):
        top = min(3, limit - 1)
        ind = lay.first(noindent, 0.15) if i == 0 else R.randint(0, max(0, top)) if lay.p(0.15) else 0
        if not item:
            limit = ind + len(marker) + 1
            out.append(mk(" " * ind + marker + (" " * R.randint(1, 3) if lay.p(0.2) else "")))
            continue
        body = emit_seq(item, lay, noindent=True)
        if item[0][1].kind == "icode":
            gap = 1
        else:
            gap = R.randint(2, 4) if lay.p(0.12) else 1
        limit = ind + len(marker) + gap
        out.append(mk(" " * ind + marker + " " * gap + body[0]))
        for line in body[1:]:
            if not line.strip():
                out.append(mk(line if lay.p(0.5) else ""))
            elif line.lz and lay.p(0.15):
                out.append(mk(" " * R.randint(0, min(limit, 3)) + line.lstrip(), True, line.lq))
            else:
                # (a line still marked by a quote in this list needs all markers around the list)
                out.append(mk(" " * limit + line, line.lz, line.lq and not line.lstrip().startswith(">")))
    return out


def e_ul(b, lay, noindent):
    mixed = lay.p(0.1)
    marks = [b.bullet] + [
        (lay.R.choice("*+-") if mixed else b.bullet) for _ in b.items[1:]
    ]
    if not b.mixable:
        marks = [b.bullet] * len(b.items)
    return _e_list(b, lay, noindent, marks)


def e_ol(b, lay, noindent):
    style = lay.R.choice(["seq", "seq", "one", "rand"]) if lay.m > 0 else "seq"
    nums = [b.start] + [
        b.start + i if style == "seq" else b.start if style == "one" else lay.R.randint(0, 300)
        for i in range(1, len(b.items))
    ]
    # (leading zeros do not matter)
    zeros = lay.p(0.12)
    return _e_list(b, lay, noindent, ["%0*d." % (lay.R.choice([1, 2, 3, 5, 9]) if zeros else 1, n) for n in nums])


def e_table(b, lay, noindent):
    R = lay.R

    def pad():
        return " " * (R.randint(0, 4) if lay.p(0.5) else 1) if not lay.p(0.03) else R.choice(["\t", " \t", "\t "])

    def row(cells):
        s = "|" + "|".join(pad() + c + (pad() if not c.endswith("\\") else " ") for c in cells)
        if cells[-1] and lay.p(0.15) and not odd_backslash(cells[-1]):
            return s.rstrip()
        return s + "|"

    def div(a):
        d = "-" * (R.randint(1, 8) if lay.m > 0 else 3)
        return {"n": d, "l": ":" + d, "r": d + ":", "c": ":" + d + ":"}[a]

    ind = " " * lay.first(noindent, 0.1)
    return [mk(ind + row(b.header)), mk(ind + row([div(a) for a in b.aligns]))] + [
        mk(ind + row(r)) for r in b.rows
    ]


def e_lrd(b, lay, noindent):
    R = lay.R

    def sp():
        return " " * (R.randint(2, 3) if lay.p(0.15) else 1)

    def trail():
        return R.choice([" ", "  ", "   ", "\t"]) if lay.p(0.03) else ""

    ind = " " * lay.first(noindent, 0.1)
    head = ind + "[%s]:" % b.label
    if not b.dest:  # (only made for C26)
        return [mk(head + trail())]
    lines = [head, b.dest] if b.own_dest else [head + ("" if lay.p(0.06) else sp()) + b.dest]
    if b.title:
        t = break_tokens(b.title, lay)
        if b.title_next:
            lines += t
        else:
            lines[-1] += sp() + t[0]
            lines += t[1:]
    return [mk(lines[0] + trail())] + [mk((" " * lay.indent(0.2)) + li + trail()) for li in lines[1:]]


def e_hr(b, lay, noindent):
    R = lay.R
    n = R.choice([R.randint(3, 9), R.randint(3, 9), R.randint(10, 130)]) if lay.m > 0 else 3
    style = R.randint(0, 3) if lay.p(0.5) else 0
    sep = [lambda: "", lambda: " ", lambda: " " * R.randint(0, 2), lambda: R.choice(["", " ", "\t", " \t"])][style]
    line = "".join(b.char + sep() for _ in range(n))
    return [mk(" " * lay.first(noindent, 0.1) + line)]


def emit(seq, R=None, messy=1.0, newline=True, code_indent=False):
    lay = Layout(R, messy, code_indent)
    text = "\n".join(emit_seq(seq, lay))
    return text + "\n" if newline else text


# ------------------------------------------------------------------------ walking
def walk(seq):
    for _, b in seq:
        yield b
        for kids in [getattr(b, "kids", None)] + list(getattr(b, "items", [])):
            if kids:
                yield from walk(kids)


def depth(seq):
    d = 0
    for _, b in seq:
        for kids in [getattr(b, "kids", None)] + list(getattr(b, "items", [])):
            if kids:
                d = max(d, depth(kids))
    return d + 1 if seq else 0


def shape(seq):
    """A structural signature, for counting distinct documents."""
    out = []
    for n, b in seq:
        kids = [getattr(b, "kids", None)] + list(getattr(b, "items", []))
        out.append("%d%s%s" % (min(n, 2), b.kind, "".join("(%s)" % shape(k) for k in kids if k)))
    return ",".join(out)
