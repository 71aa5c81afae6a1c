"""Texts that are not necessarily well-formed: fragments, characters, mutations and
truncations of documents."""
import glob
import os

from . import doc
from .gen import Gen, WIDTHS

REPO = os.environ.get("MARKFLOW_REPO", "/repo")

CHARS = (
    "aaabcxyz  \n\n\n  **__``~>#-+=|[]()!<>\\:.\"'0123456789&;{}/\t\r"
    "éß日\U0001f389\u00a0\u2028\u0085\x0b\x0c\x1c\x00\ufeff"
    "\u0301\ufb01\u212b\u0130\u00b2\u0663\uff11\uff03\uff1e\uff5c\u200b\u200d\u200f\u00ad\u3000\u2029\x1f\ud83d"
)
PLAIN_CHARS = "aabbc  \n\n**_``>#-+=|[]()!<>\\:.\"'12&"
FRAGS = [
    "alpha", "beta gamma", "x", "# h", "#h", "###### six", "####### seven", "##", "> q", ">q", ">", ">> d", "> > e", "- a", "* b", "+ c", "-", "*", "+",
    "1. one", "2. two", "10. ten", "1.", "1) p", "0. z", "```", "```py", "~~~", "````", "~~~~ x", "---", "***", "___", "* * *", "- - -", "===", "=", "--",
    "| a | b |", "|---|---|", "| --- | :-: |", "|:-|", "| a |", "|", "||", "| a", "|-", "|a|b|c|", "[a]: /u", "[a]: /u 'title'", "[a]:", "[a]: /u \"open", "'close'",
    "[b]: <u v>", "(t)", "`code`", "`open", "``a ` b``", "**bold**", "*em", "_x_", "[l](/u)", "[l](", "](x)", "![i](/p)", "[r][s]", "[s]", "<br>", "<br/>x", "x<br />",
    "<b>", "<div>", "</div>", "<!-- c -->", "<a@b.c>", "\\", "\\\\", "end\\", "two  ", "three   ", "\\*", "\\`", "&amp;", ".dot", "...", "$", "%%", "'", '"', ":", "::",
    "word " * 20, "l" * 100, "[long text here and on](http://example.com/very/long/path/to/somewhere)", "a | b", "\t", "\ttab", "    code", "     more", "```x```",
    "http://x.y/z", "~", "``", "```` `x` ````", "é ü 日本", "!", "![", "![]", "[]()", "[](", "[]", "()", "1.2.3", "a.b", "2.x",
    "\u0663. x", "\u0661\u0662. y", "\u00b2. z", "\uff11. a", "\uff03 h", "\uff1e q", "\uff5ca\uff5c", "\u2022 x", "e\u0301te\u0301", "\ufb01n \u212b", "\u00a0- x", "\u3000* x", "\ufeff# h", "-\u00a0x",
    "1.\u00a0x", ">\u00a0q", "#\u00a0h", "9" * 30 + ". x", "1" * 9 + ". x", "0" * 12 + ". x", "#" * 80, "`" * 80, "~" * 80, ">" * 40,
]
_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = []
        for pat in ("tests/files/*.md", "*.md"):
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                try:
                    with open(f, newline="") as fh:
                        _corpus.append(fh.read())
                except OSError:
                    pass
    return _corpus


def chars(R):
    pool = CHARS if R.random() < 0.4 else PLAIN_CHARS
    n = R.choice([1, 2, 3, 5, 8, 15, 30, 60, 120])
    return "".join(R.choice(pool) for _ in range(R.randint(0, n)))


def frags(R):
    lines = []
    prefixes = ["", "", "", "", " ", "  ", "   ", "    ", "     ", "> ", ">", "> > ", "- ", "* ", "1. ", "  - ", "   ", "> - ", "- > ", "    - ", "      "]
    for _ in range(R.randint(1, R.choice([2, 4, 8, 16]))):
        if R.random() < 0.15:
            lines.append(R.choice(["", "", "", "  ", ">", "    "]))
            continue
        line = R.choice(prefixes) if R.random() < 0.5 else ""
        line += " ".join(R.choice(FRAGS) for _ in range(R.choice([1, 1, 1, 2, 3])))
        if R.random() < 0.1:
            line = line.replace(" ", "", 1)
        if R.random() < 0.1:
            line += R.choice([" ", "  ", "\\", "   "])
        lines.append(line)
    nl = "\n" if R.random() < 0.9 else R.choice(["\r\n", "\r"])
    return nl.join(lines) + (nl if R.random() < 0.8 else "")


def document(R, **kw):
    kw.setdefault("maxdepth", R.choice([0, 1, 2, 3]))
    if R.random() < 0.5:
        kw.setdefault("size", R.choice([1, 2]))
    g = Gen(R, **kw)
    return doc.emit(g.doc(), R, messy=R.choice([0, 0.3, 1]))


def mutate(R, text):
    t = list(text)
    for _ in range(R.choice([1, 1, 1, 2, 3, 6])):
        k = R.randint(0, 6)
        i = R.randint(0, len(t))
        if k == 0 and t:
            j = min(len(t), i + R.choice([1, 1, 2, 5, 20]))
            del t[i:j]
        elif k == 1:
            t[i:i] = R.choice(CHARS)
        elif k == 2:
            t[i:i] = R.choice(FRAGS)
        elif k == 3 and t:
            j = min(len(t), i + R.randint(1, 30))
            t[i:i] = t[i:j]
        elif k == 4:
            t[i:i] = "\n" + R.choice(["", " ", "    ", "> ", "- "])
        elif k == 5:
            nls = [p for p, c in enumerate(t) if c == "\n"]
            if nls:
                del t[R.choice(nls)]
        elif k == 6:
            lines = "".join(t).split("\n")
            a, b = R.randrange(len(lines)), R.randrange(len(lines))
            lines[a], lines[b] = lines[b], lines[a]
            t = list("\n".join(lines))
    return "".join(t)


def anytext(R):
    """Any text at all: (kind, text)."""
    k = R.choice(["chars", "frags", "frags", "mutated", "mutated", "truncated", "document", "corpus"])
    if k == "chars":
        return k, chars(R)
    if k == "frags":
        return k, frags(R)
    if k == "document":
        return k, document(R)
    if k == "corpus":
        c = corpus()
        if not c:
            return "frags", frags(R)
        t = R.choice(c)
        if R.random() < 0.5:
            lines = t.split("\n")
            a = R.randrange(len(lines))
            t = "\n".join(lines[a:a + R.choice([3, 10, 40])])
        return k, mutate(R, t[:3000])
    t = document(R)
    if k == "truncated":
        cut = R.randint(0, len(t))
        return k, t[:cut]
    return k, mutate(R, t)


def width(R):
    return R.choice(WIDTHS)
