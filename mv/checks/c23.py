"""C23: as a filter, stdout carries the formatted text and nothing else."""
from .. import cli, gen, soup
from ..run import Obs
from .clibase import CliCheck, Files, LENGTHS, lib


class C23(CliCheck):
    id = "C23"
    rule = ("texts of every kind (documents, soup, CRLF, unterminated, empty, non-ASCII) piped into the command with every kind of line length and up to four verbosity "
            "flags; standard output byte for byte, exit status, and the tree; five runs with a terminal for standard input. Distinct by (text, options); non-trivial: the library returns a result")
    n = dict(quick=1200, thorough=25000)
    reach = dict(filtered=400, with_verbosity=150, infinite=50, default_length=80, stderr_seen=20, files_formatted=50, terminals=5)

    def go(self, R, w, o, i):
        length = R.choice(LENGTHS + [None, 2, 3, 5, 30, 72, 100, -5])
        F = Files(R, length)
        k = R.random()
        if k < 0.5:
            data = F.data()[1]
        elif k < 0.8:
            data = F.text().encode("utf-8", "replace")
        else:
            data = soup.anytext(R)[1].encode("utf-8", "replace")
        flags = [R.choice(["-v", "-q", "--verbose", "--quiet", "-vv", "-qq", "-vvv", "-qqqq", "-vvvvv"]) for _ in range(R.choice([0, 0, 1, 2, 4]))]
        argv = self.mix(R, [], self.length_args(length), flags)
        w.file("a.md", b"*  x\n")
        if R.random() < 0.1:
            return self.files(R, w, o, F, length, flags)
        if R.random() < 0.1:
            w.dir("out")
            argv += ["--output-dir", "out"]
        kind, text = lib(data, length)
        o.key = (data, argv)
        before = w.ready()
        res = self.run(R, w, o, argv, data)
        t = cli.touched(before, w.snapshot())
        o.counts.update(with_verbosity=int(bool(flags)), infinite=int(length is not None and length < 1), default_length=int(length is None), stderr_seen=int(bool(res.err)))
        if len(data) < 200:
            o.sample = dict(argv=argv, stdin=repr(data), stdout=repr(res.out)[:200])
        if t:
            return self.bad(o, "a filter touches files", w, argv, res, touched=t)
        if kind != "ok":
            o.nontrivial = False
            if res.code == 0 or res.out.strip():
                self.bad(o, "output or success for a text that cannot be formatted", w, argv, res, input=repr(data)[:500])
            return
        o.counts["filtered"] = 1
        if res.code != 0:
            return self.bad(o, "exit status %s" % res.code, w, argv, res, input=repr(data)[:500])
        if res.out != text.encode():
            return self.bad(o, "standard output is not the formatted text", w, argv, res, input=repr(data)[:500], expected=repr(text)[:800], found=repr(res.out)[:800])

    def pinned(self):
        for j, flags in enumerate([[], ["-v"], ["--check"], ["--line-length", "20"], ["-qq"]]):
            yield "terminal%d" % j, lambda flags=flags: self.terminal(flags)

    def terminal(self, flags):
        """No path, and a terminal instead of piped input: there is nothing to do."""
        w = self.world()
        o = Obs(key=("terminal", flags))
        o.counts["runs"] = o.counts["terminals"] = 1
        try:
            w.file("a.md", b"*  x\n")
            before = w.ready()
            res = cli.terminal(w, flags)
            t = cli.touched(before, w.snapshot())
            if res is None:
                o.violation("the command waits for a terminal's input", argv=flags)
            elif res.code != 0 or t:
                o.violation("exit status %s or files touched with nothing to do" % res.code, argv=flags, touched=t, **res.brief())
            return o
        finally:
            w.close()

    def files(self, R, w, o, F, length, flags):
        """The line length and the flags mean the same for files."""
        data = F.good()
        w.file("b.md", data)
        argv = self.mix(R, ["b.md"], self.length_args(length), flags)
        w.own()
        res = self.run(R, w, o, argv)
        o.key = (data, argv, "file")
        o.counts["files_formatted"] = 1
        want = lib(data, length)[1]
        got = w.contents()["b.md"]
        if res.code != 0 or cli.decode(got) != want:
            return self.bad(o, "a file is formatted differently with these options", w, argv, res, input=repr(data)[:500], expected=repr(want)[:600], found=repr(got)[:600])


CHECK = C23()
