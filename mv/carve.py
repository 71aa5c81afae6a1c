"""Takes an output apart along a document tree, with the help of a CommonMark parser.

`carve` yields, for every block of the tree, the output lines that belong to it without
the indentation and quote markers of the blocks around it.  It raises Mismatch when the
parser finds other blocks in the output than the tree has."""
import re

from markdown_it import MarkdownIt

from .doc import sub

MD = MarkdownIt("commonmark", dict(maxNesting=2000)).enable("table")

KIND = {
    "paragraph_open": "para", "heading_open": "heading", "fence": "fence", "code_block": "icode", "blockquote_open": "quote",
    "bullet_list_open": "ul", "ordered_list_open": "ol", "hr": "hr", "table_open": "table", "html_block": "html",
}


class Mismatch(Exception):
    pass


class Piece:
    __slots__ = ("block", "lines", "width", "path", "token", "items")

    def __init__(self, block, lines, width, path, token):
        self.block, self.lines, self.width, self.path, self.token = block, lines, width, path, token
        self.items = None


def top(text):
    """Top-level blocks: [(kind, token, (first line, end line), tokens)]."""
    toks = MD.parse(text)
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        j = i
        if t.nesting == 1:
            d = 0
            while True:
                d += toks[j].nesting
                if d == 0:
                    break
                j += 1
        out.append((KIND.get(t.type, t.type), t, tuple(t.map), toks[i:j + 1]))
        i = j + 1
    return out


def want(b):
    return "heading" if b.kind in ("atx", "setext") else b.kind


def carve(seq, lines, width, path=()):
    blocks = [b for _, b in seq if b.kind != "lrd"]
    found = top("\n".join(lines) + "\n")
    kinds = [k for k, _, _, _ in found]
    if kinds != [want(b) for b in blocks]:
        raise Mismatch("blocks at %s: expected %s, found %s" % ("/".join(path) or "top", [want(b) for b in blocks], kinds))
    for b, (kind, tok, (lo, hi), toks) in zip(blocks, found):
        mine = lines[lo:hi]
        while mine and not mine[-1].strip() and kind not in ("fence",):
            mine = mine[:-1]
        piece = Piece(b, mine, width, path, tok)
        if kind == "quote":
            pre = "> " if b.spaced else ">"
            inner = []
            for li in mine:
                if li.startswith(pre):
                    inner.append(li[len(pre):])
                elif li == ">":
                    inner.append("")
                else:
                    raise Mismatch("quote line %r does not start with %r" % (li, pre))
            yield piece
            yield from carve(b.kids, inner, sub(width, len(pre)), path + ("quote",))
        elif kind in ("ul", "ol"):
            opens = [t for t in toks if t.type == "list_item_open" and t.level == 1]
            if len(opens) != len(b.items):
                raise Mismatch("list at %s: expected %d items, found %d" % ("/".join(path) or "top", len(b.items), len(opens)))
            piece.items = []
            sub_items = []
            for n, (it, t) in enumerate(zip(b.items, opens)):
                a, z = t.map
                li = lines[a:z]
                while li and not li[-1].strip():
                    li = li[:-1]
                m = re.match(r"([*+-]|[0-9]+[.)])( |$)", li[0])
                if not m:
                    raise Mismatch("item %r does not start with a marker at its place" % li[0])
                w = len(m.group(0)) if m.group(2) else len(m.group(1)) + 1
                body = [li[0][w:]]
                for x in li[1:]:
                    if x and x[:w].strip():
                        raise Mismatch("line %r is not indented by %d" % (x, w))
                    body.append(x[w:])
                piece.items.append((m.group(1), t.info, li))
                sub_items.append((it, body, w))
            yield piece
            for n, (it, body, w) in enumerate(sub_items):
                yield from carve(it, body, sub(width, w), path + (kind + str(n),))
        else:
            yield piece


def carve_all(seq, out, width):
    return list(carve(seq, out.split("\n")[:-1] if out.endswith("\n") else out.split("\n"), width))


def separated(seq, filler):
    """The tree with a paragraph between lists that a parser would take for one."""
    out = []
    for blanks, b in seq:
        prev = out[-1][1] if out else None
        if prev is not None and prev.kind in ("ul", "ol") and b.kind in ("ul", "ol") and blanks:
            out.append((1, filler()))
            blanks = 1
        if b.kind == "quote":
            b.kids = separated(b.kids, filler)
        elif b.kind in ("ul", "ol"):
            b.items = [separated(it, filler) for it in b.items]
        # (a quote right behind a quote is the same quote)
        if prev is not None and prev.kind == b.kind == "quote" and not blanks:
            blanks = 1
        out.append((blanks, b))
    return out
