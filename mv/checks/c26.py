"""C26: diagnostics name the lines of the document they are about."""
import contextlib
import logging
import random
import re

from .. import cli, doc, gen, sut
from ..base import DocCheck
from ..run import REPO, Obs

NAMES = dict(para="Paragraph", atx="ATXHeading", setext="SetextHeading", fence="FencedCodeBlock", icode="IndentedCodeBlock", quote="BlockQuote",
             ul="BulletList", ol="OrderedList", table="Table", lrd="LinkReferenceDefinition", hr="ThematicBreak")
SECTION = re.compile(r"Lines? (\d+)(?:-(\d+))?: .*?Markdown(\w+)", re.S)
LINE = re.compile(r"\blines? (\d+)", re.I)
# (the over-indented fence, the lone label and the glued heading are told from others by these)
MARK = "zq%dqz"


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        if record.pathname.startswith(REPO):
            self.records.append((record.levelno, record.getMessage()))


@contextlib.contextmanager
def recording(level):
    root = logging.getLogger()
    ours = logging.getLogger("markflow")
    state = logging.root.manager.disable, root.level, ours.level
    h = Recorder()
    logging.disable(logging.NOTSET)
    root.setLevel(level)
    root.addHandler(h)
    try:
        yield h.records
    finally:
        root.removeHandler(h)
        root.setLevel(state[1])
        ours.setLevel(state[2])
        logging.disable(state[0])


def seqs(seq):
    yield seq
    for _, b in seq:
        for s in ([b.kids] if b.kind == "quote" else b.items if b.kind in ("ul", "ol") else []):
            yield from seqs(s)


class C26(DocCheck):
    id = "C26"
    rule = ("documents with every kind of block, holding headings without a space, closing fences that are indented too far, definitions without a "
            "destination and headings right behind quotes, at top level and nested; the records that are logged: sections against the blocks' lines, "
            "warnings against the lines of the oddities; and what the command shows of them at each verbosity. Distinct by (structure, width, "
            "oddities); non-trivial: formatted")
    n = dict(quick=6000, thorough=120000)
    reach = dict(sections=10000, headings=500, fences=150, labels=150, behind_quotes=100, nested_warnings=200, command_runs=60)
    refs = False

    def gen_kw(self, R, tier):
        kw = super().gen_kw(R, tier)
        kw["inline"] = dict(w=1)
        kw["nospace"] = R.choice([0, 0.5])
        return kw

    def make(self, R, i, tier):
        d = super().make(R, i, tier)
        n = 0
        for seq in list(seqs(d)):
            j = 0
            while j < len(seq):
                blanks, b = seq[j]
                if b.kind == "atx" and b.tokens and b.nospace:
                    s, t, k = b.tokens[0]
                    b.tokens[0] = (s, MARK % n + t, k)
                    n += 1
                elif b.kind == "fence" and b.closed and R.random() < 0.4:
                    b.lines = list(b.lines) + [MARK % n]
                    b.over = R.randint(4, 7)
                    n += 1
                elif R.random() < 0.06:
                    new = doc.B("lrd", label=MARK % n, dest="", title=[], own_dest=False, title_next=False)
                    n += 1
                    seq.insert(j, (1 if j else blanks, new))
                    seq[j + 1] = (max(1, blanks), b)
                    if b.kind == "icode" or j and seq[j - 1][1].kind in ("ul", "ol"):
                        del seq[j]
                        seq[j] = (blanks, b)
                elif b.kind == "quote" and b.kids and not b.trail and R.random() < 0.2 and (j + 1 == len(seq) or seq[j + 1][0]):
                    seq.insert(j + 1, (0, doc.B("setext", char=R.choice("=-"), tokens=[("", MARK % n, "w"), (" ", "zwei", "w"), (" ", "drei", "w")], behind=True)))
                    n += 1
                    j += 1
                elif b.kind == "setext" and j and seq[j - 1][1].kind == "quote" and seq[j - 1][1].kids and not seq[j - 1][1].trail and R.random() < 0.7:
                    s, t, k = b.tokens[0]
                    b.tokens[0] = (s, MARK % n + t, k)
                    b.behind = True
                    seq[j] = (0, b)
                    n += 1
                j += 1
        return d

    def case(self, R, i, tier):
        obs = super().case(R, i, tier)
        if obs.viol is None and R.random() < 0.03:
            self.command(R, obs)
        return obs

    def run(self, d, w, es):
        for seq in seqs(d):
            # (when shrinking) not all that is asked for is there
            for prev, (_, b) in zip([None] + [x[1] for x in seq], seq):
                b.behind = b.kind == "setext" and getattr(b, "behind", False) and prev is not None and prev.kind == "quote"
        with recording(logging.INFO) as records:
            self.records = records
            return super().run(d, w, es)

    def judge(self, d, w, src, out, obs):
        self.src = src
        lines = src.split("\n")[:-1]
        oddities = []
        may = set()
        for seq in seqs(d):
            for _, b in seq:
                if b.kind == "atx" and b.tokens and b.nospace:
                    mark, what = b.tokens[0][1], "headings"
                elif b.kind == "fence" and getattr(b, "over", 0):
                    mark, what = b.lines[-1], "fences"
                elif b.kind == "lrd" and not b.dest:
                    mark, what = "[%s]:" % b.label, "labels"
                elif b.kind == "setext" and getattr(b, "behind", False):
                    mark, what = b.tokens[0][1], "behind_quotes"
                else:
                    continue
                at = [n for n, li in enumerate(lines, 1) if mark in li]
                if len(at) != 1:
                    obs.counts["unmarked"] = obs.counts.get("unmarked", 0) + 1
                    return
                if what == "behind_quotes" and lines[at[0] - 2].count(">") <= lines[at[0] - 1].count(">"):
                    # (behind a lazy line, that line begins the heading)
                    obs.counts["unmarked"] = obs.counts.get("unmarked", 0) + 1
                    return
                oddities.append((at[0] + (what == "fences"), what))
                obs.counts[what] = obs.counts.get(what, 0) + 1
                obs.counts["nested_warnings"] = obs.counts.get("nested_warnings", 0) + (seq is not d)
        obs.key = (doc.shape(d), w, sorted(oddities))
        for n, li in enumerate(lines, 1):
            if re.fullmatch(r"[ >*+0-9.-]*#+ *", li):
                may.add(n)  # (whether an empty heading lacks a space is left open)
        got = []
        for level, text in self.records:
            if level > logging.INFO:
                m = LINE.search(text)
                if not m:
                    return self.bad(obs, "a warning names no line", src, w, out, warning=text)
                got.append(int(m.group(1)))
        want = sorted(n for n, _ in oddities)
        found = sorted(n for n in got if n not in may)
        if found != want:
            return self.bad(obs, "warnings do not name the lines they are about", src, w, out, named=sorted(got), expected=sorted(oddities),
                            warnings=[t for lv, t in self.records if lv > logging.INFO])
        # the sections tile the document
        at = 1
        kinds = {}
        starts = {}
        for level, text in self.records:
            m = SECTION.match(text) if level == logging.INFO else None
            if not m:
                continue
            a, b = int(m.group(1)), int(m.group(2) or m.group(1))
            if a != at or b < a:
                return self.bad(obs, "the sections that are logged do not follow each other", src, w, out, section=text, expected=at)
            obs.counts["sections"] = obs.counts.get("sections", 0) + 1
            starts[a] = (b, m.group(3))
            for n in range(a, b + 1):
                kinds[n] = m.group(3)
            at = b + 1
        if at != len(lines) + 1:
            return self.bad(obs, "the sections that are logged are not all lines", src, w, out, last=at - 1, lines=len(lines))
        # the blocks of the document
        n = 1
        for blanks, b, size in self.spans:
            for _ in range(blanks):
                if kinds[n] != "BlankLine":
                    return self.bad(obs, "a blank line is logged as something else", src, w, out, line=n, found=kinds[n])
                n += 1
            name = NAMES[b.kind]
            if b.kind in ("ul", "ol", "icode") or b.kind == "para" and len(b.segs) > 1:
                # MarkFlow takes these apart
                if kinds[n] != name or n not in starts or any(kinds[k] not in (name, "BlankLine") for k in range(n, n + size)):
                    return self.bad(obs, "a list, paragraph or code block is logged as something else", src, w, out, line=n, found=[kinds[k] for k in range(n, n + size)])
            elif starts.get(n) != (n + size - 1, name):
                return self.bad(obs, "a block is logged with other lines or as something else", src, w, out, line=n, found=repr(starts.get(n)),
                                expected=repr((n + size - 1, name)))
            n += size

    def source(self, d, R):
        """As doc.emit, remembering how many lines each block has."""
        self.spans = []
        return "\n".join(doc.emit_seq(d, doc.Layout(R, R.choice(self.messy), False), spans=self.spans)) + "\n"

    def command(self, R, obs):
        """Verbosity decides what of this is shown, on standard error."""
        cli.preload()
        w = cli.World(self.scratch)
        try:
            flags = [R.choice(["-v", "-q", "--verbose", "--quiet", "-vv", "-vvv", "-qq"]) for _ in range(R.choice([0, 1, 1, 2, 3]))]
            net = sum((1 if f.startswith(("-v", "--v")) else -1) * (1 if f.startswith("--") else len(f) - 1) for f in flags)
            w.own()
            res = cli.run(w, flags, self.src.encode(), R.random() < 0.05, 0)
            obs.counts["command_runs"] = obs.counts.get("command_runs", 0) + 1
            err = " ".join(res.err.decode("utf-8", "replace").split())
            for level, need, what in ((logging.WARNING, 1, "warning"), (logging.INFO, 2, "section")):
                for lv, text in self.records:
                    if lv != level or (level == logging.INFO and not SECTION.match(text)):
                        continue
                    brief = " ".join(text.split())[:40] if level == logging.WARNING else text.split(":")[0] + ":"
                    shown = brief in err
                    if shown != (net >= need):
                        return obs.violation("a %s is %s" % (what, "shown" if shown else "not shown"), input=self.src, flags=flags, message=text, stderr=err[:1500])
        finally:
            w.close()


CHECK = C26()
