"""What the command line checks have in common."""
import os

from .. import cli, gen, soup
from ..base import Check
from ..run import Obs
from . import witnesses

TABLES = ["| a | b |\n|---|---|\n| c |\n", "text\n\n| a |\n| b |\n", "# h\n\n| a | b |\n|---|---|---|\n", "- x\n\n| x | y |\n|---|---|\n| 1 | 2 | 3 |\n\nend\n"]
UNSTABLE = [t for t, widths in witnesses.UNSTABLE]
NAMES = ["__init__.md", "a_b_.md", "*n*.md", "[a](b).md", "`c`.md", "x&amp;y.md", "1. x.md", "a.md", "b.md", "notes.md", "README.md", "z9.md", "x-y.md", "long-name-of-a-file.md", "1.md", "c.md", "m.md"]
OTHER = ["data.txt", "plain", "b.markdown", "x.MD", "page.html", "d.md.bak", "md", "s.rst"]
SUBDIRS = ["_d_", "[d]", "d", "docs", "docs/sub", "d/e/f/g", "e.md", "x y", "docs.d"]
LENGTHS = [None, None, 88, 1, 10, 20, 40, 60, 120, 0, -1, -88, 1000]


def lib(data, length):
    return cli.library(data, cli.effective(88 if length is None else length))


class Files:
    """Random file contents of a chosen state at a line length."""

    def __init__(self, R, length):
        self.R, self.length = R, length

    def text(self):
        R = self.R
        if R.random() < 0.004:
            return self.big()
        k = R.random()
        if k < 0.08:
            return R.choice(["", "\n", " \n\n", "a\n", "a", "# h\n", "\ttab\n", "x\n\n\n\n", "\n\nx\n"])
        if k < 0.2:
            return R.choice(witnesses.HTML)[1]
        if k < 0.4:
            return "".join(c for c in soup.anytext(R)[1][:800])
        if k < 0.6:
            words = [R.choice(gen.SAFE + ["naïve", "日本"]) for _ in range(R.randint(1, 60))]
            return " ".join(words) + R.choice(["", "\n", "  \n", "\n\n"])
        return soup.document(R, size=R.choice([1, 2, 4]))[:2500]

    def big(self):
        """A text that is larger than the buffers of files and pipes."""
        R = self.R
        n = R.choice([9000, 70000, 140000, 300000])
        word = R.choice(["code", "naïve", "a  b"])
        if R.random() < 0.7:
            return "*  first\n\n```\n" + (word + " line\n") * (n // 9) + "```\n\nlast   word\n"
        return "first\n\n" + (word + " ") * min(n // 5, 9000) + "last\n"

    def good(self):
        """A text the library formats: its bytes."""
        while True:
            data = self.text().encode("utf-8", "replace")
            if lib(data, self.length)[0] == "ok":
                return data

    def formatted(self):
        data = lib(self.good(), self.length)[1].encode()
        # (a fixed point, or C02 is broken, which is C02's business)
        return data

    def data(self, failing=0.0):
        """(state, bytes)"""
        R = self.R
        if R.random() < failing:
            return self.failing()
        k = R.choice(["formatted", "formatted", "raw", "raw", "raw", "crlf", "crlf-formatted", "unterminated", "almost"])
        if k == "formatted":
            return k, self.formatted()
        if k == "crlf-formatted":
            return k, self.formatted().replace(b"\n", R.choice([b"\r\n", b"\r\n", b"\r"]))
        if k == "crlf":
            return k, self.good().replace(b"\r", b"").replace(b"\n", b"\r\n")
        if k == "unterminated":
            return k, self.formatted().rstrip(b"\n") or b"x"
        if k == "almost":
            d = self.formatted()
            return k, d + R.choice([b"\n", b" ", b"\n\n", b"  \n", b"x\n"])
        return k, self.good()

    def failing(self, undecodable=0.0):
        R = self.R
        if R.random() < undecodable:
            data = self.good()
            at = R.choice([0, len(data), R.randint(0, len(data))])
            bad = R.choice([b"\xff", b"\xe9", b"\xc3(", b"\x80", b"\xed\xa0\x80"])
            data = data[:at] + bad + data[at:]
            try:
                data.decode("utf-8")
            except UnicodeDecodeError:
                return "failing-undecodable", data
        for _ in range(20):
            if R.random() < 0.5:
                t = R.choice(TABLES)
                if R.random() < 0.4:
                    t = lib(self.good(), self.length)[1].rstrip("\n") + "\n\n" + t
                kind = "table"
            else:
                t = R.choice(UNSTABLE)
                kind = "unstable"
            if lib(t.encode(), self.length)[0] == kind:
                return "failing-" + kind, t.encode()
        return "failing-table", TABLES[0].encode()


class CliCheck(Check):
    n = dict(quick=1200, thorough=25000)
    wall = dict(quick=45, thorough=900)
    case_seconds = 200
    assumptions = ["file and console encoding UTF-8 (PYTHONUTF8=1)", "a terminal width that does not wrap the messages (COLUMNS)"]

    def world(self):
        cli.preload()
        return cli.World(self.scratch)

    def case(self, R, i, tier):
        w = self.world()
        try:
            o = Obs()
            o.counts["runs"] = 0
            self.go(R, w, o, i)
            return o
        finally:
            w.close()

    def run(self, R, w, o, argv, stdin=None):
        real = R.random() < 0.03
        entry = R.randint(0, 1)
        res = cli.run(w, argv, stdin, real, entry)
        o.counts["runs"] += 1
        o.counts["real_processes"] = o.counts.get("real_processes", 0) + real
        if res.events is not None:
            o.counts["fs_events"] = o.counts.get("fs_events", 0) + len(res.events)
        return res

    @staticmethod
    def length_args(length):
        return [] if length is None else ["--line-length=%d" % length] if length < 0 else ["--line-length", str(length)]

    @staticmethod
    def verbosity(R):
        return [R.choice(["-v", "-q", "--verbose", "--quiet", "-vv", "-qq", "-vvv"]) for _ in range(R.choice([0, 0, 0, 1, 1, 2]))]

    @staticmethod
    def mix(R, paths, *groups):
        """Options in random places around the paths (which stay together)."""
        groups = [list(g) for g in groups if g]
        R.shuffle(groups)
        cut = R.randint(0, len(groups))
        before = [x for g in groups[:cut] for x in g]
        after = [x for g in groups[cut:] for x in g]
        return before + list(paths) + after

    def bad(self, o, what, w, argv, res, **kw):
        return o.violation(what, argv=argv, **res.brief(), **kw)


def spell(R, rel, w):
    """One of the ways to name a file."""
    k = R.random()
    if k < 0.7:
        return rel
    if k < 0.85:
        return "./" + rel
    if k < 0.95:
        return w.path(rel)
    return "../w/" + rel


def norm(w, p):
    return os.path.relpath(os.path.normpath(os.path.join(w.cwd, p)), w.cwd)
