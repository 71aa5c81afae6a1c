"""C20: the command writes exactly the formatted text where told to."""
import os

from .. import cli
from .clibase import NAMES, OTHER, CliCheck, Files, LENGTHS, lib, norm, spell


class C20(CliCheck):
    id = "C20"
    rule = ("the command on 1..6 files (formatted, unformatted, CRLF, unterminated, empty) in place, with --output-dir (holding other and older files) or "
            "--output-file, with line lengths, verbosity and paths spelled in several ways, symbolic links among inputs and outputs, several permissions, among bystander files, then the same command again; every file's bytes, permissions, "
            "inode and modification time before and after. Distinct by (mode, options, states of the files); non-trivial: a file is processed")
    reach = dict(in_place=200, output_dir=80, output_file=80, written=300, kept=150, repeated=300, bystanders=500, links=60)

    def go(self, R, w, o, i):
        length = R.choice(LENGTHS)
        F = Files(R, length)
        mode = R.choice(["in_place", "in_place", "output_dir", "output_file"])
        files, states = [], []
        k = R.choice([1, 1, 2, 3, 4, 6])
        used = set()
        twins = mode != "output_dir" and R.random() < 0.25
        places = R.sample(["", "d", "d/e", "../side", "e", "e/d"], k)
        for name in R.sample(NAMES + OTHER, k):
            rel = os.path.join(R.choice(["", "", "d", "d/e", "../side"]), name)
            if twins:
                # files of one name in several directories
                rel = os.path.join(places[len(files)], files and os.path.basename(files[0]) or name)
            st, data = F.data()
            if R.random() < 0.12:
                # a symbolic link to the file elsewhere
                at = os.path.join(R.choice(["", "real", "../real", "d"]), R.choice(["target%d.md", "t%d.txt", ".t%d"]) % len(files))
                w.file(at, data)
                w.link(rel, at, R)
            else:
                at = rel
                w.file(rel, data)
            if R.random() < 0.3:
                os.chmod(w.path(at), R.choice([0o600, 0o640, 0o664, 0o755, 0o666, 0o700]))
            files.append(rel)
            states.append(st)
            used.add(name)
        # bystanders
        for rel in ["other.md", "d/other.md", "../above.md", "../side/x.md", "d/bin.dat"]:
            if R.random() < 0.7:
                w.file(rel, F.text().encode("utf-8", "replace") if R.random() < 0.9 else bytes(R.randrange(256) for _ in range(40)))
        opts = [self.length_args(length), self.verbosity(R)]
        if R.random() < 0.1:
            opts.append(["--write-renders"])
        paths = [spell(R, f, w) for f in files]
        target = {}
        if mode == "in_place":
            target = {f: f for f in files}
            if R.random() < 0.15:
                paths.append(R.choice(paths))
        elif mode == "output_dir":
            out = R.choice(["out", "../out", "d/out", "out/deep"])
            w.dir(out)
            for f in files + ["unrelated.md"]:
                if R.random() < 0.3:
                    self.older(R, w, os.path.join(out, os.path.basename(f)), F)
            opts.append([R.choice(["--output-dir", "--output-directory"]), R.choice([out, w.path(out), out + "/"])])
            target = {f: os.path.join(out, os.path.basename(f)) for f in files}
            if R.random() < 0.1:
                paths.append(paths[0])
        else:
            outs = ["out%d.%s" % (n, R.choice(["md", "txt"])) for n in range(k)]
            w.dir("outs")
            outs = [os.path.join(R.choice(["", "outs", ".."]), x) for x in outs]
            for x in outs:
                if R.random() < 0.3:
                    self.older(R, w, x, F)
            target = dict(zip(files, outs))
            sp = [spell(R, x, w) if not x.startswith("..") else x for x in outs]
            opts += [["--output-file", x] if R.random() < 0.7 else ["--output-file=" + x] for x in sp]
        argv = self.keep_order(R, paths, opts)
        o.key = (mode, sorted(states), len(opts[0]), opts[1])
        o.counts[mode] = 1
        before = w.ready()
        where = {f: self.real(w, f) for f in files}
        target = {f: self.real(w, target[f]) for f in files}
        links = sum(where[f] != norm(w, f) for f in files)
        res = self.run(R, w, o, argv)
        after = w.snapshot()
        o.counts["snapshots"] = 2
        o.counts["links"] = links
        o.counts["bystanders"] = len(before) - len(files)
        if i % 60 == 0:
            o.sample = dict(argv=argv, states=states, exit=res.code)
        if res.code != 0:
            return self.bad(o, "exit status %s for a successful run" % res.code, w, argv, res)
        want = {}
        for f in files:
            data = before[where[f]][4]
            kind, text = lib(data, length)
            t = target[f]
            if mode == "in_place" and text == cli.decode(data):
                o.counts["kept"] = o.counts.get("kept", 0) + 1
                continue
            o.counts["written"] = o.counts.get("written", 0) + 1
            want[t] = text.encode()
        for t, data in want.items():
            got = after.get(t)
            if got is None or got[4] != data:
                return self.bad(o, "an output is not the formatted text", w, argv, res, path=t, expected=repr(data)[:600], found=repr(got and got[4])[:600], mode=mode)
            if t in before and got[:2] != before[t][:2]:
                return self.bad(o, "the kind or the permissions of a file change", w, argv, res, path=t, expected=before[t][:2], found=got[:2], mode=mode)
        extra = {k: v for k, v in cli.touched(before, after).items() if k not in want}
        if extra:
            return self.bad(o, "a file that should not be is " + "/".join(sorted(set(extra.values()))), w, argv, res, touched=extra, mode=mode)
        told = [norm(w, p) for p in cli.reported(res, "reformatted")]
        changed = {norm(w, f) for f in files if lib(before[where[f]][4], length)[1] != cli.decode(before[where[f]][4])}
        if set(told) != changed:
            return self.bad(o, "other files are reported as reformatted", w, argv, res, expected=sorted(changed), reported=told)
        if len(paths) == len(files):
            c = cli.counts(res)
            if (c.get("changed", 0), c.get("kept", 0)) != (len(changed), len(files) - len(changed)):
                return self.bad(o, "wrong counts", w, argv, res, expected=(len(changed), len(files) - len(changed)), found=c)
        # again
        again_before = w.ready()
        res2 = self.run(R, w, o, argv)
        o.counts["repeated"] = 1
        t = {k: v for k, v in cli.touched(again_before, w.snapshot()).items() if mode == "in_place" or v != "rewritten"}
        if res2.code != 0 or t:
            return self.bad(o, "running the command again changes something", w, argv, res2, touched=t)

    @staticmethod
    def real(w, rel):
        """Where a path leads to."""
        return os.path.relpath(os.path.realpath(w.path(rel)), os.path.realpath(w.cwd))

    @staticmethod
    def older(R, w, rel, F):
        """Something older where an output goes."""
        if R.random() < 0.15:
            at = os.path.join(R.choice(["old", "../old"]), "older-" + os.path.basename(rel))
            w.file(at, F.text().encode("utf-8", "replace"))
            w.link(rel, at, R)
        else:
            w.file(rel, F.text().encode("utf-8", "replace"))

    @staticmethod
    def keep_order(R, paths, opts):
        """Options around the paths, output files in their order."""
        opts = [g for g in opts if g]
        outs = [g for g in opts if g[0].startswith("--output-file")]
        rest = [g for g in opts if not g[0].startswith("--output-file")]
        R.shuffle(rest)
        at = sorted(R.randint(0, len(outs)) for _ in rest)
        for n, g in zip(reversed(at), reversed(rest)):
            outs.insert(n, g)
        cut = R.randint(0, len(outs))
        return [x for g in outs[:cut] for x in g] + list(paths) + [x for g in outs[cut:] for x in g]


CHECK = C20()
