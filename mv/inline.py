"""Matching of inline tokens against output text."""
import re

from .doc import BR, clusters


def pattern(segs):
    """A regular expression for the segments of a paragraph, wrapped in any way that
    keeps pieces together and adds or removes no space."""
    out = []
    for tokens, hard in segs:
        prev = None
        for i, (sep, text, kind) in enumerate(tokens):
            if i:
                br = BR.match(text) or (prev and BR.match(prev))
                if sep == " ":
                    out.append(r"[ \n]")
                elif sep == "^" or br:
                    out.append(r"\n?")
            out.append(re.escape(text))
            prev = text
        if hard == "  ":
            out.append(r"  \n")
        elif hard:
            out.append(r"\\\n")
    pat = "".join(out)
    return pat


def layout(segs, lines):
    """Assign the unbreakable pieces to lines: per line a list of (sep, text), plus the
    set of lines after which the break is required; None if they do not fit together."""
    res = []
    forced = set()
    li = 0
    for tokens, hard in segs:
        toks = list(tokens)
        if hard == "\\":
            s, t, k = toks[-1]
            toks[-1] = (s, t + "\\", k)
        cl = clusters(toks)
        if li >= len(lines):
            return None
        line, cur = lines[li], []
        pos = 0
        for n, (sep, text) in enumerate(cl):
            cand = (" " if sep == " " and cur else "") + text
            if cur and line.startswith(cand, pos) and _ends(line, pos + len(cand), cl, n, hard):
                cur.append((sep, text))
                pos += len(cand)
            elif not cur and line.startswith(text):
                cur.append((sep, text))
                pos = len(text)
            else:
                if pos != len(line):
                    return None
                res.append(cur)
                li += 1
                if li >= len(lines) or not lines[li].startswith(text):
                    return None
                line, cur, pos = lines[li], [(sep, text)], len(text)
            if BR.match(text):
                if pos != len(line):
                    return None
                res.append(cur)
                forced.add(li)
                li += 1
                line, cur, pos = (lines[li] if li < len(lines) else ""), [], 0
        if cur:
            rest = line[pos:]
            if rest != ("  " if hard == "  " else ""):
                return None
            res.append(cur)
            forced.add(li)
            li += 1
    return (res, forced) if li == len(lines) else None


def _ends(line, pos, cl, n, hard):
    """Is pos a place where the piece n can end?"""
    if pos == len(line):
        return True
    if n + 1 < len(cl):
        nsep = cl[n + 1][0]
        return line[pos] == " " if nsep == " " else line.startswith(cl[n + 1][1], pos)
    return line[pos:] == ("  " if hard == "  " else "")
