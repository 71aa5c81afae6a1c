"""Random documents (trees of mv.doc.B) in the documented section types."""
import math
import re

from .doc import B, BR, hazard, walk

SAFE = (
    "alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi omicron pi rho sigma tau "
    "ups phi chi psi omega a I we you they supercalifragilistic antidisestablishmentarianism"
).split()
ODD = (
    "naïve 日本語 été \U0001f389 x-y it's \"quoted\" (paren) [brack] [x] 3.14 2nd v1.2.3 50% $5 a_b_c a*b "
    "-x +x =-= -=- ==- *- -* _- +- 1- .dot .. ... -- — 1.x 1.5 a/b/c C:\\dir e.g. i.e. @user a=b a|b < & > a>b a<b =x =>x ~x ~~s~~ "
    "\\* \\_ \\[ \\] \\# \\> \\` \\\\ &amp; &copy; \\. 10\\. a! ! foo: :foo ;x (a [z {b} 'q' x# x` "
    "10\u00a0km a\u2003b\u3000c «\u00a0d\u00a0» a\\ b\\\\\\ x=\\ http://ex.com/?a=b&c=d#e x\u2028y x\x0cy "
    "e\u0301te\u0301 \ufb01n \u212bng soft\u00adhyphen zero\u200bwidth \u0663. \uff11. \u2022 \u200fx m\u00b2 \u0130I \u1e9e\u00df &nbsp; &#65; &lt;b&gt; \uff03 \uff1e"
).split(" ")
ODD = [w for w in ODD if w not in ("x`", ">")]
HAZ = (
    "- + * 1. 12. 7) 1) 10) # ## > = === --- ** *** ___ _ | ~~~ #a >a |a ###### == -- ++ 123456789. >> ```` ~~~~x"
).split(" ")
LABELS = ["ref", "long ref", "Foo-1", "a.b", "n2", "ünï", "etc.", "^1", "(c)", "f()", "x:", "-", "q?", "\"z\"", "Foo*bar*", "a\\b", "i, j", "#5", "<e>", "$"]
WIDTHS = list(range(1, 13)) + [20, 30, 40, 50, 60, 72, 80, 88, 88, 88, 100, 120, math.inf]
CODE_TEXT = [
    "x", "a b", "foo bar baz", "a  b", "x.y", "*a*", "[a](b)", "<br>", "\\", "a\\", "](x", "a | b", "# x", "- y",
    "1. z", "> q", "&amp;", "f(x)[0](y)", "~~~", "[r][s]", "."
]
START = [".x", ".NET", "..", "...x", "\u0663.", "\u00b2", "\uff11.", "\u2022", "\u2013", "e\u0301", "1.5", "1.x", "-x", "+x", "*x", "_x", "~x", "~~s~~", "!", "(a", "a)", "'q'", ":", ":-", "&gt;", "&amp;",
         "\\#", "\\>", "\\-", "\\*", "\\`", "1\\.", "1)x", "12", "\uff03", "\uff1e", "\uff5ca", "@u", "$x", "^", "{a}", "[x]", "[brack]", "[", "]", "<", "a|b", "=x", "==x", "?", ";", "a:", "\u00df"]
NEAR = ["**", "__", "--", "++", "==", "===", "*-*", "-*-", "***a", "--a", "___x", "_a_", "**-", "-*", "+++", "__*", "a--", "~~", "-_-_-", "==-",
        "..", "***-", "--=", "=-=", "-=-", "=--", "==_", "*_*_*", "___-", "-----*", "-a---", "*a**"]
PAREN_URLS = ["/w_(x)", "<b c>", "a(b)c(d)e", "/x(1)#s"]
URLS = ["/u", "http://ex.com/a", "#frag", "http://ex.com/a/very/long/path/that/is/long", "a.b", "/x_y_z", "<>", "/u?a=b&c"]


def pick(R, weights):
    items = list(weights.items())
    return R.choices([k for k, _ in items], [w for _, w in items])[0]


class Gen:
    """Random trees.  feats: relative weights of inline pieces; kinds: of blocks."""

    INLINE = dict(w=60, odd=8, em=6, code=7, link=5, codelink=2, badge=1, img=2, ref=3, auto=2, br=1, haz=5, html=1, codeglue=3, esc=2)
    BLOCKS = dict(para=40, atx=8, setext=7, fence=9, icode=5, quote=10, ul=11, ol=9, table=5, lrd=5, hr=5)

    def __init__(self, R, inline=None, blocks=None, maxdepth=3, hard=0.15, nospace=0.0, mix=False, size=None,
                 refs=True, blanks=(1, 1, 1, 1, 2, 3), adjacent=0.3, near=0.02, empty=0.02, start=0.2, tail=0.02, edge=0.05):
        self.R = R
        self.inline = dict(self.INLINE if inline is None else inline)
        self.blocks = dict(self.BLOCKS if blocks is None else blocks)
        if not refs:
            self.inline.pop("ref", None)
        self.maxdepth, self.hard, self.nospace, self.mix = maxdepth, hard, nospace, mix
        self.size, self.blanks, self.adjacent, self.near, self.empty, self.start, self.tail, self.edge = size, blanks, adjacent, near, empty, start, tail, edge
        self.chain = 0
        self.used = set()

    def rare(self):
        """Now and then, something is far bigger than usual."""
        return self.R.random() < self.tail

    # ------------------------------------------------------------- inline
    def word(self):
        R = self.R
        w = R.choice(SAFE)
        if R.random() < 0.15:
            w += R.choice(",.;:!?")
        return w

    def words(self, n, kind="w"):
        return [(" ", self.word(), kind) for _ in range(n)]

    def atom(self, state):
        """Tokens of one inline piece; the first has separator ' '."""
        R = self.R
        k = pick(R, self.inline)
        if k == "br" and not state["br"]:
            k = "w"
        if k == "codelink":
            # (the destination stays with the text when there is code in it)
            tick = "`" * R.randint(1, 2)
            toks = [(" ", R.choice(["", "", "!"]) + "[", "w"), ("", tick + R.choice(["x", "a b", "f(x)", "--opt", "x.y", "*a*"]) + tick, "code")]
            if R.random() < 0.4:
                toks[0:1] = [(" ", "[" + self.word(), "w")]
                toks[1] = (" ",) + toks[1][1:]
            if R.random() < 0.4:
                toks += [(" ", self.word(), "w")]
            end = "](" + R.choice(URLS + [u for u in PAREN_URLS if " " not in u]) + ")" if R.random() < 0.8 or state.get("norefs") or "ref" not in self.inline else None
            if end is None:
                lab = R.choice([x for x in LABELS if " " not in x])
                self.used.add(lab)
                end = "][" + lab + "]"
            return toks + [("", end, "w")], "codelink"
        if k == "badge":
            toks = [list(t) for t in self.words(R.randint(1, 3))]
            toks[0][1] = "[![" + toks[0][1]
            toks[-1][1] += "]("
            return [tuple(t) for t in toks] + [("^", R.choice(URLS) + ")](" + R.choice(URLS) + ")", "dest")], "link"
        if k in ("link", "img", "ref"):
            if k == "ref" and state.get("norefs"):
                k = "link"
            toks = self.words(R.randint(1, 3))
            text = [list(t) for t in toks]
            if R.random() < 0.1:
                text[-1][1] += "`"[:0] + R.choice(["*x*", "\\_", "é"])
            pre = "!" if k == "img" else ""
            text[0][1] = pre + "[" + text[0][1]
            if k == "ref":
                lab = R.choice(LABELS)
                self.used.add(lab)
                text[-1][1] += "]["
                end = lab + "]"
            else:
                text[-1][1] += "]("
                end = R.choice(PAREN_URLS) + ")" if R.random() < 0.1 else R.choice(URLS) + R.choice(["", "", "", ' "ti tle"', " 'x  y'"]) + ")"
            return [tuple(t) for t in text] + [("^", end, "dest")], "link"
        if k == "w":
            return [(" ", self.word(), "w")], k
        if k == "odd":
            return [(" ", R.choice(ODD), "w")], k
        if k == "esc":
            return [(" ", R.choice(["\\*a\\*", "\\`x\\`", "\\\\", "a\\_b", "\\<br>", "\\&amp;", "\\!", "\\(x\\)"]), "w")], k
        if k == "em":
            m = R.choice(["*", "**", "_", "__", "***"])
            toks = [list(t) for t in self.words(R.randint(1, 4))]
            toks[0][1] = m + toks[0][1]
            toks[-1][1] += m
            return [tuple(t) for t in toks], k
        if k in ("code", "codeglue"):
            tick = "`" * R.randint(1, 3)
            text = R.choice(CODE_TEXT)
            if len(tick) > 1 and R.random() < 0.3:
                text = "x ` y"
            if R.random() < 0.1:
                text = " " + text + " "
            if R.random() < 0.05:
                text = " ".join(self.word() for _ in range(R.randint(3, 12)))
            toks = [(" ", tick + text + tick, "code")]
            if k == "codeglue":
                pre, post = R.choice([("", "s"), ("x", ""), ("(", ")"), ("**", "**"), ("*", "*"), ('"', '",'), ("", "."), ("", ".foo"), ("", ".."),
                                      ("", ","), ("-", "-"), ("a`"[:1], "b"), ("\\*", "\\*"), ("\\`", "\\`"), ("\\`", ""), ("", "!"), ("~~", "~~"), ("", "\u00a0:"), ("«\u00a0", "\u00a0»"), ("", "\u2003x")])
                if pre == "\\`" and len(tick) == 3:
                    pre = ""    # with the code's marker, that is a run of four backticks
                if pre:
                    toks = [(" ", pre, "w"), ("", toks[0][1], "code")]
                if post:
                    toks.append(("", post, "w"))
            return toks, "code"
        if k == "auto":
            return [(" ", R.choice(["<http://auto.example/x>", "<me@ex.com>"]), "w")], k
        if k == "html":
            return [(" ", R.choice(["<b>", "</b>", "<i>x</i>", "<span>y</span>"]), "w")], k
        if k == "br":
            return [(R.choice([" ", ""]), R.choice(["<br>", "<br/>", "<br />"]), "br")], k
        if k == "haz":
            h = R.choice(HAZ)
            if h == "````" and state["runs"]:
                h = "-"
            if h == "````":
                state["runs"] = True
            return [(" ", h, "w")], k
        raise AssertionError(k)

    def text(self, n=None, br=True, norefs=False, runs=False):
        """A sequence of inline tokens, beginning with a plain word."""
        R = self.R
        if n is None:
            n = R.choice([1, 2, 3, 5, 8, 13, 21, 34])
            n = R.randint(max(1, n // 2), n)
            if self.tail and R.random() < 0.004:
                n = R.randint(60, 250)
        state = dict(br=br, runs=runs, norefs=norefs)
        out = [("", R.choice(SAFE), "w")]
        prev = "w"
        if R.random() < self.start:
            out, prev = self.first(state)
        for i in range(n - 1):
            if out[-1][2] == "br" and R.random() < 0.8:
                # after an HTML line break, a plain word
                out.append((R.choice(["", " "]), R.choice(SAFE), "w"))
                prev = "w"
                continue
            toks, kind = self.atom(state)
            if kind == "br" and out[-1][1].endswith("\\"):
                continue
            if kind == "br" and not self._glueable(out + [toks[0]]):
                toks = [(" ",) + toks[0][1:]]
            if prev == "br" and (kind == "br" or hazard(toks[0][1])):
                continue
            toks = list(toks)
            # glue pieces together where that keeps their meaning
            if kind == "link" and prev == "link":
                if R.random() < 0.25:
                    toks[0] = ("",) + toks[0][1:]
            elif kind == "link" and prev in ("w", "code") and self._glueable(out) and not out[-1][1].endswith("]") and R.random() < 0.1:
                toks[0] = ("", "(" + toks[0][1] if toks[0][1][0] != "!" else toks[0][1], toks[0][2])
            elif kind == "w" and prev == "link" and R.random() < 0.3:
                toks[0] = ("", R.choice([".", ",", "s", ").", "!", "..", ".x", ":", "\u00a0!", "\u00a0»"]), "w")
            elif kind == "code" and prev == "code" and R.random() < 0.1 and not toks[0][1].startswith("`") \
                    and not out[-1][1].endswith("`"):
                toks[0] = ("",) + toks[0][1:]
            out += toks
            prev = kind
        if out[-1][2] == "br":
            out.append((" ", R.choice(SAFE), "w"))
        return out

    def first(self, state):
        """Tokens to begin a line with that are not just a word, and their kind."""
        R = self.R
        kinds = {k: v for k, v in self.inline.items() if k in ("em", "code", "link", "img", "ref", "auto", "esc")}
        if not kinds or R.random() < 0.4:
            return [("", R.choice(START), "w")], "w"
        saved, self.inline = self.inline, kinds
        toks, kind = self.atom(state)
        self.inline = saved
        if toks[0][1].startswith("```"):
            return [("", R.choice(SAFE), "w")], "w"
        return [("",) + toks[0][1:]] + list(toks[1:]), kind

    @staticmethod
    def _glueable(out):
        """Not behind a piece that follows a link (known finding K1)."""
        i = len(out) - 1
        while i > 0 and out[i][0] != " ":
            i -= 1
        for s, t, k in reversed(out[:i]):
            if k == "dest":
                return False
            if s == " ":
                break
        return not any(k in ("dest", "br") for _, _, k in out[i:])

    # ------------------------------------------------------------- blocks
    def para(self, ctx):
        R = self.R
        if R.random() < self.near:
            # almost a thematic break or an underline, but a paragraph
            near = R.choice(NEAR)
            if not (ctx.get("bullet") and len(set(near)) == 1 and near[0] in ctx["bullet"]):  # '* **' is a thematic break
                return B("para", segs=[([("", near, "w")], "")])
        segs = []
        while True:
            # (two unattached runs of backticks would be a code span)
            runs = any(t.startswith("````") for ts, _ in segs for _, t, _ in ts)
            toks = self.text(norefs=ctx.get("norefs"), runs=runs)
            if not segs and R.random() < self.near / 2:
                near = R.choice(NEAR)
                if not (ctx.get("bullet") and near[0] in ctx["bullet"]):
                    toks[:1] = [("", near, "w"), (" ",) + toks[0][1:]]
            if R.random() < self.near * 1.5:
                toks.append((" ", R.choice(NEAR), "w"))
            if R.random() < self.hard:
                h = R.choice(["  ", "\\"])
                if toks[-1][1].endswith("\\"):
                    toks.append((" ", R.choice(SAFE), "w"))
                elif R.random() < 0.06:
                    # escaped backslashes in front of the hard break
                    toks.append((" ", R.choice(SAFE) + "\\\\" * R.choice([1, 1, 2, 3]), "w"))
                segs.append((toks, h))
                continue
            if toks[-1][1].endswith("\\") and len(toks[-1][1]) % 2:
                pass
            segs.append((toks, ""))
            return B("para", segs=segs)

    def atx(self, ctx):
        R = self.R
        toks = self.text(R.randint(1, 8) if not self.rare() else R.randint(20, 80), br=False) if R.random() > 0.05 else []
        if toks and R.random() < 0.1:
            toks.append((" ", R.choice(["#", "##", "C#", "\\#"]), "w"))
        if toks and R.random() < 0.1:
            toks[0] = ("", R.choice(["C#", "a#b", "x##", "1#", "F#/C#"]), "w")
        return B("atx", level=R.randint(1, 6), tokens=toks, nospace=bool(toks) and R.random() < self.nospace)

    def setext(self, ctx):
        tokens = self.text(self.R.choice([1, 2, 3, 6, 12, 25]), br=False)
        # a pipe above dashes would be a table for the oracle
        pipe = any("|" in t for _, t, _ in tokens)
        return B("setext", char="=" if pipe else self.R.choice("=-"), tokens=tokens)

    def code_line(self):
        R = self.R
        r = R.random()
        if r < 0.12:
            return ""
        if r < 0.3:
            return " " * R.choice([0, 0, 2, 4, 8]) + " ".join(self.word() for _ in range(R.randint(1, 25)))
        return " " * R.choice([0, 0, 0, 1, 2, 3, 4, 8]) + R.choice([
            "# not a heading", "- item", "* item", "+ x", "1. one", "7. seven", "> quote", ">> q", "| a | b |", "|---|---|",
            "---", "===", "***", "* * *", "___", "[x]: /u 'title'", "```", "~~~", "````", "~~~~ sh", "`code`", "``` js", "</div>", "<br>",
            "def f(x):  return [x](y)", "a  b   c", "$ rm x \\", "\\", "tail\\", "'''", "if a: # c", "{", "}", "a\tb", "é ü", "x" * 100,
            "````~~~", "~~~```", "~~~ ~~~", "``` ```", "```~", "[a](b) [c][d]", "1) x", "-", "*", "1.", "#", "<!-- c -->", "    indented more", "foo\u2028bar", "Setext", "----",
        ])

    def fence(self, ctx):
        R = self.R
        ch = R.choice("`~")
        n = R.choice([3, 3, 3, 4, 5, 8]) if not self.rare() else R.randint(9, 60)
        lines = []
        for _ in range(R.choice([0, 1, 2, 3, 5, 9]) if R.random() > 0.02 else R.randint(20, 120)):
            li = self.code_line()
            s = li.strip()
            # keep content from closing the fence
            if s and set(s) == {ch} and len(s) >= n:
                continue
            lines.append(li)
        info = R.choice(["", "", "python", "js", "sh -x", "a b c", "{.class}", "c++", "x~", "~y", "a ~ b~~"] + (["`z`", "u`", "~`~"] if ch == "~" else []))
        closed = True
        return B("fence", char=ch, n=n, info=info, lines=lines, closed=closed)

    def icode(self, ctx):
        R = self.R
        lines = []
        for _ in range(R.choice([1, 1, 2, 3, 6]) if R.random() > 0.02 else R.randint(20, 120)):
            lines.append(self.code_line())
        while lines and not lines[0].strip():
            lines.pop(0)
        while lines and not lines[-1].strip():
            lines.pop()
        return B("icode", lines=lines or ["code"])

    def quote(self, ctx):
        R = self.R
        spaced = R.random() < 0.85 or self.chain > 0 and not ctx.get("tight")
        if spaced:
            n = R.randint(1, 4) if not self.chain else R.choice([1, 1, 2])
            kids = self.seq(dict(ctx, depth=ctx["depth"] + 1, bullet=None, host="quote", many=n > 1), n)
        else:
            sub = dict(ctx, depth=ctx["depth"] + 1, bullet=None, host="quote", tight=True)
            kids = self.seq(sub, R.randint(1, 3))
        lead, trail = (R.choice([1, 1, 1, 2, 3]) if R.random() < self.edge else 0 for _ in "12")
        if lead and R.random() < 0.1:
            kids = []
        return B("quote", spaced=spaced, kids=kids, lead=lead, trail=trail)

    def item(self, ctx, bullet):
        R = self.R
        sub = dict(ctx, depth=ctx["depth"] + 1, bullet=bullet, host="list")
        if R.random() < self.empty and not self.chain:
            return []
        if R.random() < 0.55 and not self.chain:
            return [(0, self.para(sub) if R.random() < 0.3 else B("para", segs=[(self.text(R.randint(1, 12)), "")]))]
        return self.seq(sub, R.randint(1, 3) if not self.chain else R.choice([1, 1, 2]))

    def many(self, one):
        """Items of a list that is much longer than usual."""
        return [[(0, B("para", segs=[(self.text(self.R.randint(1, 4)), "")]))] if self.R.random() < 0.98 else one() for _ in range(self.R.randint(20, 130))]

    def nitems(self):
        if self.chain:
            return self.R.choice([1, 1, 2])
        return self.R.choice([1, 1, 2, 3, 4, 6, 12])

    def ul(self, ctx):
        bullet = self.R.choice("*-+")
        mixable = self.mix and self.R.random() < 0.4
        n = self.nitems() if ctx["depth"] < 2 else self.R.randint(1, 3)
        if ctx["depth"] < 1 and not self.chain and self.rare():
            return B("ul", bullet=bullet, items=self.many(lambda: self.item(ctx, "*-+" if mixable else bullet)), mixable=mixable)
        return B("ul", bullet=bullet, items=[self.item(ctx, "*-+" if mixable else bullet) for _ in range(n)], mixable=mixable)

    def ol(self, ctx):
        R = self.R
        start = ctx.get("start") or R.choice([0, 1, 1, 1, 2, 3, 7, 8, 9, 10, 95, 99, 100, 998, 12345, 999999980])
        n = self.nitems() if ctx["depth"] < 2 else R.randint(1, 3)
        if ctx["depth"] < 1 and not self.chain and self.rare():
            items = self.many(lambda: self.item(ctx, None))
            return B("ol", start=min(start, 10 ** 9 - len(items)), items=items)
        start = min(start, 10 ** 9 - n)  # (numbers of more than nine digits are no numbers)
        return B("ol", start=start, items=[self.item(ctx, None) for _ in range(n)])

    def cell(self):
        R = self.R
        r = R.random()
        if r < 0.1:
            return ""
        if r < 0.25:
            return R.choice(["a\\|b", "\\|", "x \\| y", "`c`", "`a\\|b`", "**b**", "[l](/u)", "é", "日本", "-", ":-", "---", "1.", "#", "a  b", "\\\\", "<br>", "\\", "\\*"])
        return " ".join(self.word() for _ in range(R.choice([1, 1, 2, 3, 8])))

    def table(self, ctx):
        R = self.R
        n = R.choice([1, 2, 2, 3, 3, 4, 7]) if not self.rare() else R.randint(8, 20)
        header = [self.cell() for _ in range(n)]
        if not any(header):
            header[0] = "h"
        rows = [[self.cell() for _ in range(n)] for _ in range(R.choice([0, 1, 1, 2, 3, 6]) if not self.rare() else R.randint(10, 60))]
        if R.random() < 0.005:
            # wider than anyone's screen
            n = R.choice([40, 64, 65, 100, 130])
            header = [R.choice(["h", "hh", "", "a b", "\\|"]) or "h" for _ in range(n)]
            rows = [[R.choice(["", "x", "yy", "zzzzzz"]) for _ in range(n)] for _ in range(R.randint(0, 3))]
        fix = lambda c: c + "x" if (len(c) - len(c.rstrip("\\"))) % 2 else c
        return B("table", aligns=[R.choice("nnlrc") for _ in range(n)], header=[fix(c) for c in header],
                 rows=[[fix(c) for c in r] for r in rows])

    def lrd(self, ctx):
        R = self.R
        title = []
        if R.random() < 0.6:
            q = R.choice("\"'\"'(")
            e = ")" if q == "(" else q
            toks = self.words(R.choice([1, 2, 4, 9, 25]) if not self.rare() else R.randint(40, 120))
            toks = [list(t) for t in toks]
            if q == "(":
                for t in toks:
                    t[1] = re.sub(r"(?<!\\)[()]", "o", t[1])
            toks[0][0] = ""
            toks[0][1] = q + toks[0][1]
            if R.random() < 0.3:
                i = R.randrange(len(toks))
                toks[i][1] += R.choice(["\\" + e, "\\\\", "-", "*x", "é", "'" if q == '"' else '"', "&amp;", "\\" + q, "\u00a0!", "\u2003x"])
            if (len(toks[-1][1]) - len(toks[-1][1].rstrip("\\"))) % 2:
                toks[-1][1] += "x"
            toks[-1][1] += e
            title = [tuple(t) for t in toks]
        own = R.random() < 0.25
        label = R.choice(LABELS) if R.random() < 0.5 else "d%d" % R.randint(1, 99)
        dest = R.choice(URLS)
        if R.random() < 0.05:
            # escaped brackets
            label = R.choice(["a\\]b", "x\\]: y", "\\[x", "z\\\\", "\\]:", "1\\[2\\] \\]"])
        if self.rare():
            label = " ".join(R.choice(SAFE) for _ in range(R.randint(4, 60)))
        if self.rare():
            dest = "/" + "/".join(R.choice(SAFE) for _ in range(R.randint(5, 60)))
        if title and title[0][1].isascii() and R.random() < 0.06:
            # the word that begins the title is somewhere before it, too
            word = title[0][1].replace("\\", "")
            if R.random() < 0.5:
                label = word + R.choice(["", " " + self.word()])
            else:
                dest = R.choice(["/", "a", "#"]) + word + R.choice(["", "/x"])
        return B("lrd", label=label, dest=dest, own_dest=own, title=title, title_next=bool(title) and R.random() < 0.4)

    def hr(self, ctx):
        return B("hr", char=self.R.choice("*-_"))

    # ------------------------------------------------------------- sequences
    @staticmethod
    def allowed(prev, b, blanks, ctx, first):
        """Can b be written behind prev with that many blank lines, and mean itself?"""
        p = prev.kind if prev else None
        k = b.kind
        if first and k == "icode" and ctx.get("host") == "quote" and ctx.get("many"):
            return False
        if first and k == "icode" and set(b.lines[0]) <= set("*-_ "):
            return False
        if first and k == "hr" and ctx.get("bullet") and b.char in ctx["bullet"]:
            return False
        if first and k == "para" and ctx.get("bullet"):
            t = set(b.segs[0][0][0][1])
            if len(t) == 1 and t <= set(ctx["bullet"]) and len(b.segs[0][0]) == 1:
                return False    # '* **' is a thematic break
        if k in ("ul", "ol") and not b.items[0] and (p and not blanks or first and ctx.get("host") == "list"):
            return False    # cannot interrupt a paragraph; '* * *'
        if p in ("ul", "ol") and not blanks and not prev.items[-1]:
            return False
        if p is None:
            return True
        if p == "list" or p in ("ul", "ol"):
            if k == "icode":
                return False
        if p == "icode" and k == "icode":
            return False
        if blanks:
            return not (p == "table" and k == "table" and False)
        if k == "table":
            return p in ("atx", "hr", "fence")
        if p == "table":
            return k in ("atx", "fence", "quote", "ul", "ol") or k == "hr" and b.char != "-"
        if p not in ("fence", "icode", "hr") and (k == "hr" or k == "para" and b.segs[0][0][0][1][0] == "-") and "|" in repr(prev):
            return False    # dashes below a pipe are a table for the oracle
        if k == "atx" or p == "atx":
            return True
        if p == "para":
            return (k in ("fence", "quote", "ul") or k == "ol" and b.start == 1 or k == "hr" and b.char != "-") \
                and not (k == "ul" and False)
        if p in ("hr", "fence"):
            return True
        if p == "icode":
            return k == "para"
        if p == "quote":
            # (dashes below lazy lines are documented to be a heading)
            return k in ("fence", "ul", "ol") or k == "hr" and b.char != "-" or k == "para" and (prev.trail or not prev.kids)
        if p in ("ul", "ol"):
            if k == "ol":
                return p == "ul" and b.start == 1
            if k == "ul":
                return p == "ol"
            return k in ("quote", "hr")
        if p == "setext":
            return False
        if p == "lrd":
            if k == "para" and b.segs[0][0][0][1][0] in "'\"(":
                return False    # that looks like a title
            return k in ("lrd", "para", "fence", "quote", "ul") or k == "ol" and b.start == 1 or k == "hr" and b.char != "-"
        return False

    def block(self, ctx):
        R = self.R
        kinds = dict(self.blocks)
        if ctx["depth"] >= self.maxdepth:
            for k in ("quote", "ul", "ol"):
                kinds.pop(k, None)
        if ctx.get("tight"):
            kinds = {k: kinds[k] for k in ("para", "atx", "hr", "setext", "quote") if k in kinds}
        if not kinds:
            kinds = dict(para=1)
        if self.chain > 0 and not ctx.get("tight"):
            self.chain -= 1
            k = R.choice([k for k in ("quote", "quote", "ul", "ol") if k in self.blocks] or ["para"])
        else:
            k = pick(R, kinds)
        b = getattr(self, k)(ctx)
        if ctx.get("tight") and k == "quote":
            b.spaced = False
        return b

    def seq(self, ctx, n):
        R = self.R
        out = []
        for _ in range(n):
            prev = out[-1][1] if out else None
            for _try in range(6):
                blanks = 0 if not out or R.random() < self.adjacent else R.choice(self.blanks) if not self.rare() else R.randint(4, 15)
                sub = dict(ctx)
                if prev and prev.kind in ("para", "ul") and blanks == 0:
                    sub["start"] = 1
                b = self.block(sub)
                if self.allowed(prev, b, blanks, ctx, not out):
                    out.append((blanks, b))
                    break
        return out or [(0, self.para(ctx))]

    def doc(self, n=None):
        R = self.R
        n = n or self.size or R.choice([1, 1, 2, 3, 4, 6, 9])
        if self.maxdepth > 2 and self.rare():
            self.chain = R.randint(4, 12)
            n = 1
        out = self.seq(dict(depth=0), n)
        if out[-1][1].kind == "fence" and not self.used and R.random() < 0.3:
            out[-1][1].closed = False
        elif self.used:
            for lab in sorted(self.used):
                out.append((1, B("lrd", label=lab, dest="/t/" + lab.replace(" ", "-"), own_dest=False, title=[], title_next=False)))
        return out


def valid(seq, ctx=None):
    """Does the tree keep to the rules for what may stand where (after shrinking)?"""
    if ctx is None:
        labels = {b.label for b in walk(seq) if b.kind == "lrd"}
        for b in walk(seq):
            for toks in [b.tokens] if hasattr(b, "tokens") else [t for t, _ in b.segs] if b.kind == "para" else []:
                if any(k == "dest" and t.endswith("]") and t[:-1] not in labels for _, t, k in toks):
                    return False    # a reference has lost its definition
    ctx = ctx or {}
    prev = None
    for i, (blanks, b) in enumerate(seq):
        if not Gen.allowed(prev, b, blanks, ctx, i == 0):
            return False
        prev = b
        if b.kind == "quote":
            tight = ctx.get("tight") or not b.spaced
            if not b.spaced and any(k.kind not in ("para", "atx", "hr", "setext", "quote") for _, k in b.kids):
                return False
            if ctx.get("tight") and b.spaced:
                return False
            if not valid(b.kids, dict(host="quote", many=len(b.kids) > 1, tight=tight)):
                return False
        for it in getattr(b, "items", []):
            bullet = None if b.kind == "ol" else "*-+" if b.mixable else b.bullet
            if not valid(it, dict(host="list", bullet=bullet)):
                return False
    return True
