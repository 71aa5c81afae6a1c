"""C05: code blocks are kept verbatim."""
from .. import carve, doc
from ..base import DocCheck


def code_blocks(text):
    """[(kind, fence, info, lines without trailing white space)] in order."""
    out = []
    for t in carve.MD.parse(text):
        if t.type in ("fence", "code_block"):
            lines = t.content.split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            out.append((t.type, t.markup, t.info.strip(), [li.rstrip() for li in lines]))
    return out


def wanted(d):
    out = []
    for b in doc.walk(d):
        if b.kind == "fence":
            out.append(("fence", b.char * b.n, b.info, [li.rstrip() for li in b.lines]))
        elif b.kind == "icode":
            out.append(("code_block", "", "", [li.rstrip() for li in b.lines]))
    return out


class C05(DocCheck):
    id = "C05"
    rule = ("documents in which fenced (both characters, 3-8 long, info strings, closed or open at the end) and indented code blocks with content that "
            "looks like every other construct stand at top level and inside lists and quotes, next to other blocks; the list of code "
            "blocks a parser finds in the output against the one the document was written from. Distinct by (structure, width); "
            "non-trivial: at least one code block")
    blocks = dict(para=20, atx=4, fence=40, icode=20, quote=12, ul=10, ol=10, hr=3, table=1)
    inline = dict(w=1)
    n = dict(quick=8000, thorough=200000)
    reach = dict(code_blocks=500, code_lines=1500, nested_docs=100, open_at_end=20)

    def judge(self, d, w, src, out, obs):
        want = wanted(d)
        obs.counts["code_blocks"] = len(want)
        obs.counts["code_lines"] = sum(len(x[3]) for x in want)
        obs.nontrivial = bool(want)
        obs.counts["open_at_end"] = sum(b.kind == "fence" and not b.closed for b in doc.walk(d))
        if [x for x in code_blocks(src)] != want:
            obs.counts["oracle_differs"] = 1
            obs.nontrivial = False
            return
        got = code_blocks(out)
        if got != want:
            n = next((j for j, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
            self.bad(obs, "a code block changed", src, w, out, block_in=repr(want[n:n + 1]), block_out=repr(got[n:n + 1]))
            return
        # an open block is closed: nothing may follow it
        last = d[-1][1]
        if last.kind == "fence" and out.rstrip("\n").split("\n")[-1].strip() != last.char * last.n:
            self.bad(obs, "the block open at the end is not closed by its fence", src, w, out)


CHECK = C05()
