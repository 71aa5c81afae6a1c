"""C21: a file that cannot be formatted is left untouched and reported."""
import os

from .. import cli
from .clibase import NAMES, CliCheck, Files, LENGTHS, lib, norm, spell


class C21(CliCheck):
    id = "C21"
    rule = ("the command on 1..6 files one or more of which fail (malformed table, unstable text, no UTF-8, unreadable, no space left for the output), in place, with --output-dir, --output-file, on directories and on "
            "standard input; and commands that are wrong as a whole (missing path, missing, unwritable or wrong kind of destination, wrong number of output files, "
            "same name twice for one directory, conflicting or unknown options, file without write or read permission); tree before and after, exit status, messages. "
            "Distinct by (mode, kinds and positions of failures, options); non-trivial: a failing file is reached or the arguments are refused")
    reach = dict(failing_files=300, argument_errors=200, files_before=100, files_after=100, snapshots=800, failing_stdin=30, undecodable=30, disk_full=15)
    level = "fault_enumeration"

    def go(self, R, w, o, i):
        length = R.choice(LENGTHS)
        F = Files(R, length)
        o.counts["snapshots"] = 2
        k = R.random()
        if k < 0.45:
            return self.failing(R, w, o, F, length, i)
        if k < 0.55:
            return self.directory(R, w, o, F, length)
        if k < 0.63:
            return self.stdin(R, w, o, F, length)
        return self.arguments(R, w, o, F, length, i)

    def named(self, argv):
        """Are error messages to be shown at this verbosity?"""
        level = 0
        for a in argv:
            if a in ("--verbose", "--quiet"):
                level += 1 if a == "--verbose" else -1
            elif a[:2] in ("-v", "-q") and len(a) < 5:
                level += (len(a) - 1) * (1 if a[1] == "v" else -1)
        return level >= 0

    def failing(self, R, w, o, F, length, i):
        mode = R.choice(["in_place", "in_place", "output_dir", "output_file"])
        n = R.choice([1, 2, 3, 3, 4, 6])
        first = R.randrange(n)
        files, states = [], []
        # (its output cannot be written as the disk is full)
        full = mode != "in_place" and cli.can_drop() and os.path.exists("/dev/full") and R.random() < 0.12
        twins = mode != "output_dir" and not full and R.random() < 0.3
        dirs = R.sample(["", "d", "e", "d/e", "f", "d/f"], n)
        for j, name in enumerate(R.sample(NAMES, n)):
            rel = os.path.join(R.choice(["", "", "d"]), name)
            if twins:
                # files of one name in several directories
                rel = os.path.join(dirs[j], files and os.path.basename(files[0]) or name)
            if j < first:
                st, data = F.data()
            elif j == first and full:
                st, data = "full", F.good() + b"\n\nsome text\n"
                while lib(data, length)[0] != "ok":
                    data = F.good() + b"\n\nsome text\n"
            elif j == first:
                st, data = F.failing(0.15)
                o.counts["undecodable"] = int(st == "failing-undecodable")
            else:
                st, data = F.data(0.2)
            w.file(rel, data)
            files.append(rel)
            states.append(st)
        w.file("other.md", F.good())
        opts = [self.length_args(length), self.verbosity(R)]
        renders = R.random() < 0.1
        if renders:
            opts.append(["--write-renders"])
        paths = [spell(R, f, w) for f in files]
        target = {f: f for f in files}
        if mode == "output_dir":
            w.dir("out")
            for f in files:
                if R.random() < 0.4:
                    w.file("out/" + os.path.basename(f), F.text().encode("utf-8", "replace"))
            opts.append(["--output-dir", "out"])
            target = {f: "out/" + os.path.basename(f) for f in files}
        elif mode == "output_file":
            outs = ["o%d.md" % j for j in range(n)]
            for x in outs:
                if R.random() < 0.4:
                    w.file(x, F.text().encode("utf-8", "replace"))
            opts.append([x for p in outs for x in ("--output-file", p)])
            target = dict(zip(files, outs))
        if full:
            t = w.path(target[files[first]])
            if os.path.lexists(t):
                os.remove(t)
            os.symlink("/dev/full", t)
            o.counts["disk_full"] = 1
        argv = self.mix(R, paths, *opts)
        o.key = (mode, states, opts[1], renders)
        before = w.ready()
        res = self.run(R, w, o, argv)
        after = w.snapshot()
        if i % 40 == 0:
            o.sample = dict(argv=argv, states=states, exit=res.code)
        o.counts.update(failing_files=1, files_before=first, files_after=n - first - 1)
        if res.code == 0:
            return self.bad(o, "exit status 0 though a file cannot be " + ("written" if full else "formatted"), w, argv, res, failing=files[first])
        want = {}
        for f in files[:first]:
            data = before[norm(w, f)][4]
            text = lib(data, length)[1]
            if mode != "in_place" or text != cli.decode(data):
                want[norm(w, target[f])] = text.encode()
        if full:
            for f in files[first + 1:]:
                # done or left
                t = norm(w, target[f])
                if after.get(t, (0,) * 5)[4] != before.get(t, (0,) * 5)[4]:
                    want[t] = lib(before[norm(w, f)][4], length)[1].encode()
        return self.judge(w, o, argv, res, before, after, want, [files[first]], None if full else paths[first], renders)

    def judge(self, w, o, argv, res, before, after, want, failing, name, renders=False):
        for t, data in want.items():
            if t not in after or after[t][4] != data:
                return self.bad(o, "a file before the failing one is not completely written", w, argv, res, path=t, expected=repr(data)[:500],
                                found=repr(after.get(t, (0,) * 5)[4])[:500])
        extra = {k: v for k, v in cli.touched(before, after).items() if k not in want}
        if renders:
            extra = {k: v for k, v in extra.items() if not k.endswith((".1.md", ".2.md"))}
        if extra:
            return self.bad(o, "a failing run changes another file: " + "/".join(sorted(set(extra.values()))), w, argv, res, touched=extra, failing=failing)
        if name and self.named(argv):
            o.counts["names_checked"] = 1
            said = (res.err + res.out).decode("utf-8", "replace").replace("\n", "")
            # a file that shares its name with others is told apart by its directory
            twin = any(os.path.basename(f) == os.path.basename(name) and f != norm(w, name) for f in before)
            if (norm(w, name) if twin else os.path.basename(name)) not in said or not any(os.path.basename(f) in said for f in failing):
                return self.bad(o, "the error does not name the file", w, argv, res, failing=failing)

    def directory(self, R, w, o, F, length):
        """A failing file somewhere in a directory: files are done or left, never half."""
        n = R.choice([1, 2, 4, 6])
        bad = R.randrange(n)
        files = []
        twins = R.random() < 0.3
        dirs = R.sample(["", "s", "t", "s/t", "u", "s/u"], n)
        for j, name in enumerate(R.sample(NAMES, n)):
            rel = os.path.join("docs", R.choice(["", "", "s"]), name)
            if twins:
                rel = os.path.join("docs", dirs[j], files and os.path.basename(files[0]) or name)
            w.file(rel, F.failing(0.15)[1] if j == bad else F.data()[1])
            files.append(rel)
        argv = self.mix(R, ["docs"], self.length_args(length), self.verbosity(R))
        unreadable = cli.can_drop() and R.random() < 0.15
        before = w.ready()
        if unreadable:
            os.chmod(w.path(files[bad]), 0)
            before = w.snapshot()
            o.counts["unreadable"] = 1
        res = self.run(R, w, o, argv)
        after = w.snapshot()
        o.key = ("directory", n, bad)
        o.counts["failing_files"] = 1
        if res.code == 0:
            return self.bad(o, "exit status 0 though a file cannot be formatted", w, argv, res, failing=files[bad])
        done = {}
        for j, f in enumerate(files):
            if j != bad and after.get(f, before[f])[4] != before[f][4]:
                done[f] = lib(before[f][4], length)[1].encode()
        return self.judge(w, o, argv, res, before, after, done, [files[bad]], files[bad])

    def stdin(self, R, w, o, F, length):
        st, data = F.failing()
        w.file("a.md", F.good())
        argv = self.mix(R, [], self.length_args(length), self.verbosity(R))
        before = w.ready()
        res = self.run(R, w, o, argv, data)
        o.key = ("stdin", st, argv, data)
        o.counts["failing_stdin"] = 1
        if res.code == 0:
            return self.bad(o, "exit status 0 though standard input cannot be formatted", w, argv, res, input=repr(data)[:300])
        if res.out.strip():
            return self.bad(o, "output though standard input cannot be formatted", w, argv, res, input=repr(data)[:300])
        t = cli.touched(before, w.snapshot())
        if t:
            return self.bad(o, "a failing run changes another file", w, argv, res, touched=t)

    def arguments(self, R, w, o, F, length, i):
        n = R.choice([1, 2, 3, 4])
        files = []
        for name in R.sample(NAMES, n):
            rel = os.path.join(R.choice(["", "", "d"]), name)
            w.file(rel, F.data()[1])
            files.append(rel)
        w.dir("out")
        w.dir("d")
        paths = [spell(R, f, w) for f in files]
        opts = [self.length_args(length), self.verbosity(R)]
        kinds = ["missing", "no-output-dir", "file-as-dir", "no-dir-for-file", "dir-as-file", "count", "clash", "both", "unknown", "length", "outputs-for-dir"]
        if cli.can_drop():
            kinds += ["unreadable", "unreadable-dir", "read-only-dir", "read-only-file", "read-only-output", "read-only-parent"] * 2
        kind = R.choice(kinds)

        def output_files(m, at=None, bad=None):
            xs = ["o%d.md" % j for j in range(m)]
            if at is not None:
                xs[at] = bad
            return [x for p in xs for x in ("--output-file", p)]
        chmod = None
        if kind == "missing":
            paths.insert(R.randint(0, n), R.choice(["nowhere.md", "no/such/dir", "d/none.md", "a.md.md"]))
            if R.random() < 0.3:
                opts.append(["--output-dir", "out"])
        elif kind == "no-output-dir":
            opts.append(["--output-dir", R.choice(["nowhere", "out/sub", "d/none"])])
        elif kind == "file-as-dir":
            opts.append(["--output-dir", files[0]])
        elif kind == "no-dir-for-file":
            opts.append(output_files(n, R.randrange(n), "nowhere/x.md"))
        elif kind == "dir-as-file":
            opts.append(output_files(n, R.randrange(n), "out"))
        elif kind == "count":
            m = R.choice([x for x in range(1, n + 3) if x != n])
            opts.append(output_files(m))
        elif kind == "outputs-for-dir":
            w.file("docs/1.md", F.good())
            w.file("docs/2.md", F.good())
            paths.append("docs")
            opts.append(output_files(n + 1))
        elif kind == "clash":
            w.file("else/where/" + os.path.basename(files[0]), F.data()[1])
            paths.insert(R.randint(0, n), "else/where/" + os.path.basename(files[0]))
            opts.append(["--output-dir", "out"])
        elif kind == "both":
            opts.append(["--output-dir", "out"])
            opts.append(output_files(n))
        elif kind == "unknown":
            opts.append([R.choice(["--frobnicate", "-x", "--in-place", "--width=3"])])
        elif kind == "length":
            opts = [["--line-length", R.choice(["abc", "1.5", "", "8 8", "inf"])]]
        elif kind == "read-only-dir":
            chmod = ("out", 0o555)
            opts.append(["--output-dir", "out"])
        elif kind == "unreadable":
            chmod = (R.choice(files), 0o200)
            if R.random() < 0.4:
                opts.append(["--output-dir", "out"])
        elif kind == "unreadable-dir":
            w.file("locked/1.md", F.data()[1])
            paths.insert(R.randint(0, n), "locked")
            chmod = ("locked", 0)
        elif kind == "read-only-file":
            chmod = (R.choice(files), 0o444)
        elif kind == "read-only-output":
            w.file("ro.md", b"old\n")
            chmod = ("ro.md", 0o444)
            opts.append(output_files(n, R.randrange(n), "ro.md"))
        elif kind == "read-only-parent":
            chmod = ("out", 0o555)
            opts.append(output_files(n, R.randrange(n), "out/new.md"))
        argv = self.mix(R, paths, *opts)
        o.key = (kind, n, argv)
        o.counts.update({"argument_errors": 1, "refused_" + kind: 1})
        if i % 40 == 0:
            o.sample = dict(argv=argv, kind=kind)
        w.own()
        if chmod:
            os.chmod(w.path(chmod[0]), chmod[1])
        before = w.snapshot()
        res = self.run(R, w, o, argv)
        t = cli.touched(before, w.snapshot())
        if t:
            return self.bad(o, "a run with wrong arguments (%s) changes something" % kind, w, argv, res, touched=t)
        if res.code == 0:
            return self.bad(o, "exit status 0 for wrong arguments (%s)" % kind, w, argv, res)


CHECK = C21()
