"""C27: the renderings of an unstable file are written where --write-renders says."""
import os

from .. import cli
from .clibase import NAMES, UNSTABLE, CliCheck, Files, LENGTHS, lib, norm, spell


def letters(text):
    return [c for c in text if c.isalpha()]


def names(path):
    """The names --write-renders is documented to use."""
    stem, end = (path[:-3], ".md") if path.endswith(".md") else (path, "")
    return stem + ".1" + end, stem + ".2" + end


class C27(CliCheck):
    id = "C27"
    rule = ("the command with --write-renders on 1..4 files with one, several or no unstable text (behind a formatted document, or alone), in place, with --output-dir and "
            "--output-file (names with and without .md), and on standard input; the tree before and after, the two renderings against each other and the "
            "library. Distinct by (mode, texts, options); non-trivial: an unstable text is reached")
    n = dict(quick=700, thorough=12000)
    reach = dict(renders=200, without_md=30, stable_runs=60, renders_stdin=30, formatted_again=30, overwritten=20)

    def unstable(self, R, F, length):
        """(document in front or None, text)"""
        for _ in range(30):
            u = R.choice(UNSTABLE)
            front = None
            if R.random() < 0.6:
                front = F.good().decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
                out = lib(front.encode(), length)[1]
                end = lib((front.rstrip("\n") + "\n\nend\n").encode(), length)
                if not front.strip() or end != ("ok", out.rstrip("\n") + "\n\nend\n"):
                    continue    # not independent of what follows
                u = front.rstrip("\n") + "\n\n" + u
                front = out.rstrip("\n")
            if lib(u.encode(), length)[0] == "unstable":
                return front, u
        return None, None

    def go(self, R, w, o, i):
        length = R.choice(LENGTHS)
        F = Files(R, length)
        if R.random() < 0.12:
            return self.stdin(R, w, o, F, length)
        mode = R.choice(["in_place", "in_place", "output_dir", "output_file"])
        n = R.choice([1, 1, 2, 3, 4])
        first = R.choice([None, R.randrange(n), R.randrange(n)])
        files, front, text = [], None, None
        for j, name in enumerate(R.sample(NAMES + ["plain", "x.txt", "y.md.md", "z.MD"], n)):
            rel = os.path.join(R.choice(["", "", "d"]), name)
            if j == first:
                front, text = self.unstable(R, F, length)
                data = (text or "a\n").encode()
                if text is None:
                    first = None
            elif first is not None and j > first and R.random() < 0.3:
                data = F.failing()[1]
            else:
                data = F.data()[1]
            w.file(rel, data)
            files.append(rel)
        if first is not None:
            o.nontrivial = True
        target = {f: f for f in files}
        opts = [self.length_args(length), self.verbosity(R), ["--write-renders"]]
        if mode == "output_dir":
            w.dir("out")
            opts.append(["--output-dir", "out"])
            target = {f: "out/" + os.path.basename(f) for f in files}
        elif mode == "output_file":
            outs = ["o%d%s" % (j, R.choice([".md", ".md", "", ".txt", ".1.md"])) for j in range(n)]
            opts.append([x for p in outs for x in ("--output-file", p)])
            target = dict(zip(files, outs))
        paths = [spell(R, f, w) for f in files]
        argv = self.mix(R, paths, *opts)
        r1, r2 = names(target[files[first]]) if first is not None else (None, None)
        if first is not None:
            for r in (r1, r2):
                if R.random() < 0.2:
                    w.file(r, b"old rendering\n")
                    o.counts["overwritten"] = 1
        o.key = (mode, argv, text)
        before = w.ready()
        res = self.run(R, w, o, argv)
        after = w.snapshot()
        if i % 40 == 0:
            o.sample = dict(argv=argv, unstable=text and text[:100], exit=res.code)
        want = {}
        for f in files[:first]:
            data = before[norm(w, f)][4]
            t = lib(data, length)[1]
            if mode != "in_place" or t != cli.decode(data):
                want[norm(w, target[f])] = t.encode()
        if (res.code == 0) != (first is None):
            return self.bad(o, "exit status %s with %s unstable text" % (res.code, "no" if first is None else "an"), w, argv, res, text=text)
        for t, data in want.items():
            if t not in after or after[t][4] != data:
                return self.bad(o, "a stable file is not written as without the option", w, argv, res, path=t)
        extra = {k: v for k, v in cli.touched(before, after).items() if k not in want and k not in (r1, r2)}
        if extra:
            return self.bad(o, "other files than the renderings are touched: " + "/".join(sorted(set(extra.values()))), w, argv, res, touched=extra, renderings=[r1, r2])
        if first is None:
            o.counts["stable_runs"] = 1
            return
        o.counts["renders"] = 1
        o.counts["without_md"] = int(not r1.endswith(".md"))
        for r in (r1, r2):
            if r not in after or after[r][0] != "file" or after[r][4] == b"old rendering\n":
                return self.bad(o, "a rendering is not written", w, argv, res, missing=r)
        what = self.judge(o, text, front, length, cli.decode(after[r1][4]), cli.decode(after[r2][4]))
        if what:
            return self.bad(o, what, w, argv, res, text=text, first=repr(after[r1][4])[:600], second=repr(after[r2][4])[:600])

    def judge(self, o, text, front, length, one, two):
        if one == two:
            return "the renderings are the same though the text is unstable"
        if letters(one) != letters(text) or letters(two) != letters(text):
            return "a rendering has other text"
        if front is not None and not (one.startswith(front + "\n\n") and two.startswith(front + "\n\n")):
            return "a rendering is not formatted at the line length"
        k, again = lib(one.encode(), length)
        if k == "ok":
            o.counts["formatted_again"] = 1
            if two.rstrip() + "\n" != again:
                return "the second rendering is not the formatted first"
        return None

    def stdin(self, R, w, o, F, length):
        front, text = self.unstable(R, F, length)
        if text is None:
            return
        argv = self.mix(R, [], self.length_args(length), self.verbosity(R), ["--write-renders"])
        o.key = ("stdin", argv, text)
        before = w.ready()
        res = self.run(R, w, o, argv, text.encode())
        t = cli.touched(before, w.snapshot())
        o.counts["renders_stdin"] = 1
        if res.code == 0 or t:
            return self.bad(o, "exit status %s or files touched for an unstable standard input" % res.code, w, argv, res, text=text, touched=t)
        # both renderings, one behind the other
        out = res.out.decode("utf-8", "replace")
        if letters(out) != letters(text) * 2:
            return self.bad(o, "standard output is not two renderings", w, argv, res, text=text)
        if front is not None and (not out.startswith(front + "\n\n") or out.count(front + "\n\n") < 2):
            return self.bad(o, "a rendering is not formatted at the line length", w, argv, res, text=text)


CHECK = C27()
