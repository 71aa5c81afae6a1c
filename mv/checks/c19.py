"""C19: --check never writes and its verdict is truthful."""
import os

from .. import cli
from .clibase import NAMES, OTHER, CliCheck, Files, LENGTHS, lib, norm, spell


class C19(CliCheck):
    id = "C19"
    rule = ("the command with --check on 0..6 files (formatted, unformatted, CRLF, unterminated, empty, failing), directories or standard input, with line lengths, "
            "verbosity flags, output options and --write-renders in any order, also on write-protected trees; audit events and the tree before and after, exit status, reported files and counts, "
            "against a following run without --check. Distinct by (options, states of the files); non-trivial: at least one file or input")
    reach = dict(check_runs=300, clean=20, dirty=100, compared_with_real_run=200, stdin_runs=30, snapshots=400, protected=60)

    def go(self, R, w, o, i):
        length = R.choice(LENGTHS)
        F = Files(R, length)
        clean = R.random() < 0.3
        opts = [["--check"], self.length_args(length), self.verbosity(R)]
        renders = R.random() < 0.15
        if renders:
            opts.append(["--write-renders"])
        if R.random() < 0.2:
            return self.stdin(R, w, o, F, opts, length, clean)
        states = []
        files = []
        failing = 0.15 if R.random() < 0.2 else 0
        for name in R.sample(NAMES + OTHER, R.choice([1, 1, 2, 3, 4, 6])):
            rel = os.path.join(R.choice(["", "", "d", "d/e"]), name)
            st, data = F.data(failing) if not clean else ("formatted", F.formatted())
            if st != "formatted" and clean:
                continue
            w.file(rel, data)
            states.append(st)
            files.append(rel)
        paths = [spell(R, f, w) for f in files]
        if R.random() < 0.15:
            paths.append(R.choice(paths))
        dirs = R.random() < 0.25
        if dirs:
            paths = ["."] if R.random() < 0.5 else [os.path.dirname(f) or "." for f in files[:1]]
        out = R.random()
        n_out = 0
        if out < 0.15:
            w.dir("../out")
            if R.random() < 0.5:
                w.file("../out/" + os.path.basename(files[0]), F.good())
            opts.append(["--output-dir", "../out"])
        elif out < 0.3 and not dirs:
            n_out = len(paths)
            opts.append([x for k in range(n_out) for x in ("--output-file", "o%d.md" % k)])
        argv = self.mix(R, paths, *opts)
        before = w.ready()
        protected = out >= 0.3 and not renders and R.random() < 0.3
        if protected:
            # nothing is written, so nothing has to be writable
            for k, v in before.items():
                os.chmod(w.path(k), 0o444 if v[0] == "file" else 0o555)
            o.counts["protected"] = 1
            real, before = before, w.snapshot()
        res = self.run(R, w, o, argv)
        after = w.snapshot()
        if protected:
            for k, v in real.items():
                os.chmod(w.path(k), v[1])
        o.key = (sorted(states), [g[0] for g in opts if g], dirs)
        o.counts.update(check_runs=1, snapshots=2)
        if i % 60 == 0:
            o.sample = dict(argv=argv, states=states, exit=res.code)
        self.untouched(o, w, argv, res, before, after, renders)
        if o.viol:
            return
        # a run without --check, in place
        plain = [] if dirs else paths
        if dirs:
            plain = paths
        if out < 0.15 and len({os.path.basename(f) for f in files}) < len(files):
            # (refused: names clash in the output directory)
            if res.code == 0:
                self.bad(o, "clashing names are not refused", w, argv, res)
            return
        res2 = self.run(R, w, o, self.mix(R, plain, self.length_args(length)))
        final = w.snapshot()
        changed = {k for k, how in cli.touched(after, final).items()
                   if after.get(k, (0,))[0] == "file" and cli.decode(after[k][4]) != cli.decode(final[k][4])}
        if res2.code != 0:
            o.counts["failing_runs"] = 1
            if res.code == 0:
                self.bad(o, "--check succeeds though formatting fails", w, argv, res)
            return
        o.counts["compared_with_real_run"] = 1
        o.counts["dirty" if changed else "clean"] = 1
        if res.code != (1 if changed else 0):
            return self.bad(o, "exit status %s though a run without --check changes %d files" % (res.code, len(changed)), w, argv, res, changed=sorted(changed),
                            files={f: repr(after[f][4])[:200] for f in files})
        told = [norm(w, p) for p in cli.reported(res, "would reformat")]
        if set(told) != changed:
            return self.bad(o, "the files reported are not those a run without --check changes", w, argv, res, changed=sorted(changed), reported=told)
        # (a file given twice counts twice)
        c = cli.counts(res)
        given = [norm(w, p) for p in paths]
        if not dirs:
            want = (sum(p in changed for p in given), sum(p not in changed for p in given))
            have = (c.get("would_change", 0), c.get("would_keep", 0))
            if have != want:
                return self.bad(o, "wrong counts", w, argv, res, expected=want, found=have)
        elif c.get("would_change", 0) != len(changed):
            return self.bad(o, "wrong counts", w, argv, res, expected=len(changed), found=c)

    def untouched(self, o, w, argv, res, before, after, renders):
        t = cli.touched(before, after)
        ev = [e for e in res.events or [] if e[0] not in ("read",) and not e[1].startswith("/dev/")]
        if renders:
            # (the developer option asks for these files)
            def dbg(p):
                b = os.path.basename(p)
                return any(b.endswith(s) for s in (".1.md", ".2.md", ".1", ".2"))
            t = {k: v for k, v in t.items() if not dbg(k)}
            ev = [e for e in ev if not (e[0] == "write" and dbg(e[1]))]
        o.counts["write_events_watched"] = int(res.events is not None)
        if t:
            return self.bad(o, "--check changes files: " + "/".join(sorted(set(t.values()))), w, argv, res, touched=t)
        if ev:
            return self.bad(o, "--check writes to the file system", w, argv, res, events=ev[:5])

    def stdin(self, R, w, o, F, opts, length, clean):
        w.file("a.md", F.good())
        data = F.formatted() if clean else F.data()[1]
        if R.random() < 0.15:
            w.dir("out")
            opts.append(["--output-dir", "out"])
        argv = self.mix(R, [], *opts)
        before = w.ready()
        res = self.run(R, w, o, argv, data)
        after = w.snapshot()
        o.key = ("stdin", [g[0] for g in opts if g], data)
        o.counts.update(check_runs=1, snapshots=2, stdin_runs=1)
        self.untouched(o, w, argv, res, before, after, "--write-renders" in argv)
        if o.viol:
            return
        kind, text = lib(data, length)
        if kind != "ok":
            return
        # (a stream's line endings are not translated, so they are part of the verdict)
        dirty = text != data.decode()
        o.counts["dirty" if dirty else "clean"] = 1
        if res.code != int(dirty):
            return self.bad(o, "exit status %s for standard input that %s" % (res.code, "would change" if dirty else "would not change"), w, argv, res, input=repr(data)[:500])
        said = " ".join(res.lines)
        if ("would be reformatted" in said) != dirty or ("would be unchanged" in said) == dirty:
            return self.bad(o, "wrong verdict on standard input", w, argv, res, input=repr(data)[:500])


CHECK = C19()
