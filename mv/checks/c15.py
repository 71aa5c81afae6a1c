"""C15: link reference definitions keep label, destination, title and layout."""
import re

from .. import carve, doc, gen, inline
from ..base import DocCheck

INF = doc.INF


def kw_words(d):
    """Are all paragraphs plain words?"""
    return not any(c in doc.plain(ts) for b in doc.walk(d) if b.kind == "para" for ts, _ in b.segs for c in "\"'()")


def seqs(seq):
    yield seq
    for _, b in seq:
        for s in ([b.kids] if b.kind == "quote" else b.items if b.kind in ("ul", "ol") else []):
            yield from seqs(s)


def quoted(R, d):
    """Text that looks like a title, but is none, behind definitions."""
    for seq in seqs(d):
        open_quote = None
        blank = False
        for (_, a), (blanks, b) in zip(seq, seq[1:]):
            blank = blank or blanks > 0
            if b.kind != "para":
                continue
            toks, hard = b.segs[0]
            if a.kind == "lrd" and R.random() < 0.6:
                q = R.choice("\"'(")
                s, t, k = toks[0]
                toks[0] = (s, q + t, k)
                q = ")" if q == "(" else q
                if (a.title or blanks) and R.random() < 0.5:
                    s, t, k = toks[-1]
                    toks[-1] = (s, t + q, k)
                else:
                    open_quote, blank = q, False
            elif open_quote and blank and R.random() < 0.85:
                toks, _ = b.segs[-1]
                s, t, k = toks[-1]
                if not toks[-1][1].endswith("\\"):
                    toks[-1] = (s, t + open_quote, k)


class C15(DocCheck):
    id = "C15"
    rule = ("documents of link reference definitions in all four layouts, with titles of 1..25 words in both quotes and parentheses, with escapes and quotes inside, "
            "followed by text that looks like a title, over one or more lines, in runs and between other blocks, at top level and in lists and quotes; label, destination, title and their "
            "lines in the output, and what a CommonMark parser defines. Distinct by (structure, layouts, width); non-trivial: holds a definition")
    blocks = dict(lrd=60, para=15, atx=4, hr=3, fence=4, quote=4, ul=4, ol=4)
    refs = False
    n = dict(quick=8000, thorough=150000)
    reach = dict(odd_labels=300, definitions=1500, titles=800, moved=100, kept=200, own_destination=200, wrapped=100)

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        kw["maxdepth"] = R.choice([0, 0, 0, 1, 2])
        kw["inline"] = dict(w=1) if R.random() < 0.7 else None
        kw["adjacent"] = 0.5
        return kw

    def make(self, R, i, tier):
        d = super().make(R, i, tier)
        # labels are unique, so that every definition can be recognised
        for n, b in enumerate(b for b in doc.walk(d) if b.kind == "lrd"):
            b.label = ("%s%d" if n % 2 else "%s %d") % (b.label, n) if b.label[-1].isalnum() else "%d%s" % (n, b.label)
        if kw_words(d):
            quoted(R, d)
        return d

    def judge(self, d, w, src, out, obs):
        lrds = [b for b in doc.walk(d) if b.kind == "lrd"]
        obs.nontrivial = bool(lrds)
        obs.key = (doc.shape(d), w, [(b.own_dest, b.title_next, len(b.title)) for b in lrds])
        lines = out.split("\n")
        widths = {}

        def visit(seq, width):
            for _, b in seq:
                if b.kind == "lrd":
                    widths[id(b)] = width
                elif b.kind == "quote":
                    visit(b.kids, doc.sub(width, 2 if b.spaced else 1))
                elif b.kind == "ul":
                    for it in b.items:
                        visit(it, doc.sub(width, 2))
                elif b.kind == "ol":
                    for j, it in enumerate(b.items):
                        visit(it, doc.sub(width, len("%d. " % (b.start + j))))
        visit(d, w)
        at = 0
        for b in lrds:
            obs.counts["odd_labels"] = obs.counts.get("odd_labels", 0) + (not b.label[-1].isalnum())
            obs.counts["definitions"] = obs.counts.get("definitions", 0) + 1
            head = "[%s]:" % b.label

            def say(what, **kw):
                return self.bad(obs, what, src, w, out, definition=head, **kw)
            found = [j for j in range(at, len(lines)) if re.match(r"[ >*+0-9.-]*" + re.escape(head), lines[j])]
            if not found:
                return say("a definition is gone or out of order")
            j = found[0]
            col = lines[j].index(head)
            own = [lines[j][col:]]
            avail = widths[id(b)]
            # the lines of the definition
            if b.own_dest:
                obs.counts["own_destination"] = obs.counts.get("own_destination", 0) + 1
                if own[0] != head:
                    return say("the destination left its own line", line=lines[j])
                j += 1
                own.append(lines[j][col:])
                if not (own[1] + " ").startswith(b.dest + " "):
                    return say("the destination is not on its own line", line=lines[j])
                lead = b.dest
            else:
                lead = head + " " + b.dest
                if not (own[0] + " ").startswith(lead + " "):
                    return say("the destination does not follow its label", line=lines[j])
            rest = own[-1][len(lead):]
            if not b.title:
                if rest.strip():
                    return say("something follows the destination", line=lines[j])
                at = j + 1
                continue
            obs.counts["titles"] = obs.counts.get("titles", 0) + 1
            pieces = doc.clusters(b.title)
            fits = len(lead) + 1 + len(pieces[0][1]) <= avail
            same_line = bool(rest.strip())
            if b.title_next and same_line:
                return say("the title moved up to the destination", line=lines[j])
            if not b.title_next and fits and not same_line:
                return say("the title moved down although it fits", line=lines[j], available=str(avail))
            if not b.title_next and not fits and same_line:
                return say("the title overflows its line", line=lines[j], available=str(avail))
            obs.counts["moved" if not b.title_next and not same_line else "kept"] = obs.counts.get(
                "moved" if not b.title_next and not same_line else "kept", 0) + 1
            tl = []
            if same_line:
                tl.append(rest[1:])
            want = inline.pattern([(b.title, "")])
            j += 1
            while not (tl and re.fullmatch(want, "\n".join(tl))):
                if j >= len(lines) or len(tl) > len(b.title) + 1:
                    return say("the title changed", found="\n".join(tl), expected=doc.plain(b.title))
                tl.append(lines[j][col:])
                j += 1
            obs.counts["wrapped"] = obs.counts.get("wrapped", 0) + (len(tl) > 1)
            lay = inline.layout([(b.title, "")], tl)
            if lay:
                for n, row in enumerate(lay[0]):
                    length = len(tl[n]) + (len(lead) + 1 if same_line and n == 0 else 0)
                    if length > avail and len(row) > 1:
                        return say("a line of the title is too long", line=tl[n], available=str(avail))
            at = j
        # what a parser makes of it, and that nothing else was absorbed
        from .c04 import stream
        a, c = stream(src), stream(out)
        if a[1] != c[1]:
            return self.bad(obs, "other definitions", src, w, out, before=repr(a[1])[:500], after=repr(c[1])[:500])
        if a[0] != c[0]:
            return self.bad(obs, "text was absorbed or set free", src, w, out, before=a[0][:300], after=c[0][:300])


CHECK = C15()
