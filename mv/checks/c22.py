"""C22: a directory argument means exactly the Markdown files beneath it."""
import os
import random

from .. import cli
from ..run import Obs
from .clibase import CliCheck, Files, LENGTHS, lib, norm

DIRS = ["d", "docs", "x y", "[a]", "*", "?", "a[b-c]d", "**", "e.md", ".hid", "ünï", "{x,y}", "d]", "!a", "[!a]", "-d", "a.b", "~", "$HOME", "%s", "'q'", "md", "deep", "__pycache__", "node_modules", "[[]"]
FILES = ["a.md", "b.md", "c d.md", "[x].md", "*.md", "?.md", "é.md", "x.y.md", "-f.md", "[.md", "].md", "{a}.md", "README.md", "CHANGELOG.md", "1.md", "~.md", "%d.md", "'.md", "md.md", "a.md.md"]
NOT = ["a.txt", "b.markdown", "c.MD", "d.Md", "md", "e.md~", "f.md.bak", "gmd", "h.mdx", "i.rst", "README", "j.md5", "k.mdown"]
HIDDEN = [".h.md", ".md"]
FIRST = list("ab_zAZ059-~#$%+=,;!@&()[]{}'^ ") + ["é", "日", "LICENSE", "TODO", "index", "draft_", "test_", "SUMMARY"]
CHARS = "abcABC_0189-. ~#[]*?{}é日"


class C22(CliCheck):
    id = "C22"
    rule = ("random trees up to 6 deep with names holding spaces, glob metacharacters, non-ASCII letters and '.md' directories, some entries symbolic links, Markdown and other files, given as one or "
            "several directories (nested, repeated, with trailing slash, '.') mixed with explicit files of any extension, in place or with --check, with or without text on standard input; the set of files "
            "changed and the counts. Distinct by the tree and arguments; non-trivial: a directory is given. Pinned: a directory of 1100 files, one of 300 directories, one 60 deep")
    n = dict(quick=900, thorough=20000)
    reach = dict(trees=400, markdown_files=1500, other_files=500, metacharacters=200, deep_files=200, explicit_files=100, with_stdin=200, no_files=30, links=60)

    def pinned(self):
        yield "many files", lambda: self.many(1100, 0)
        yield "many directories", lambda: self.many(0, 300)
        yield "very deep", lambda: self.many(1, 0, 60)

    def many(self, files, dirs, depth=0):
        """Directories that are larger, or deeper, than people have them."""
        w = self.world()
        try:
            o = Obs(key=("many", files, dirs, depth), runs=0)
            rels = ["d/%d.md" % n for n in range(files)] + ["d/%d/x.md" % n for n in range(dirs)] + ["d/%s%d.md" % ("s/" * n, n) for n in range(depth)]
            for rel in rels:
                w.file(rel, b"*  a\n")
            before = w.ready()
            R = random.Random(1)
            argv = ["d"]
            res = self.run(R, w, o, argv)
            after = w.snapshot()
            bad = [k for k in rels if after.get(k, before[k])[4] != b"* a\n"] + sorted(set(cli.touched(before, after)) - set(rels))
            o.counts.update(large_trees=1)
            if res.code != 0 or bad:
                return self.bad(o, "not exactly the files beneath a large directory are processed", w, argv, res, files=len(rels), wrong=bad[:10], wrong_total=len(bad))
            return o
        finally:
            w.close()

    def go(self, R, w, o, i):
        length = R.choice(LENGTHS)
        F = Files(R, length)
        pool = [F.data()[1] for _ in range(4)] + [F.good() for _ in range(3)]
        dirs = [""]
        for _ in range(R.choice([1, 2, 4, 8])):
            base = R.choice(dirs)
            if base.count("/") < 6:
                dirs.append(os.path.join(base, R.choice(DIRS) if R.random() < 0.7 else R.choice(FIRST) + R.choice(["", "x", "_", ".d", "-1", "[0]", "build"])))
        for d in dirs:
            w.dir(d or ".")
        md, links = set(), {}
        for _ in range(R.choice([1, 3, 6, 12, 20])):
            d = R.choice(dirs)
            k = R.random()
            name = R.choice(FILES if k < 0.6 else NOT if k < 0.93 else HIDDEN)
            if R.random() < 0.4:
                stem = "".join(R.choice(CHARS) for _ in range(R.choice([0, 1, 2, 3, 8, 40])))
                name = "." + stem + ".md" if name in HIDDEN else R.choice(FIRST) + stem + os.path.splitext(name)[1]
                k = 0.5 if name.endswith(".md") and name[0] != "." else 0.9
            rel = os.path.join(d, name)
            if os.path.lexists(w.path(rel)):
                continue
            if R.random() < 0.06:
                # a symbolic link to a file that is elsewhere and named otherwise
                links[rel] = os.path.join("../real", "t%d" % len(links))
                w.file(links[rel], R.choice(pool))
                w.link(rel, links[rel], R)
            else:
                w.file(rel, R.choice(pool))
            if k < 0.6:
                md.add(rel)
        # what is given
        args, expected, plain = [], [], set()
        for _ in range(R.choice([1, 1, 1, 2, 3])):
            d = R.choice(dirs if R.random() < 0.8 else [""])
            below = sorted(f for f in md if d == "" or f.startswith(d + "/"))
            # directories and files whose name starts with a dot are skipped beneath a directory
            below = [f for f in below if not any(p.startswith(".") for p in os.path.relpath(f, d or ".").split("/"))]
            a = d or "."
            if a.startswith("-") or R.random() < 0.2:
                a = R.choice(["./" + a, w.path(a)])
            args.append(a + R.choice(["", "", "/"]))
            expected += below
        explicit = 0
        if R.random() < 0.4:
            everything = [k for k, v in w.snapshot().items() if v[0] == "file" and not k.startswith("..")]
            for _ in range(R.randint(1, 2)):
                if everything:
                    f = R.choice(everything)
                    args.insert(R.randint(0, len(args)), "./" + f)
                    expected.append(f)
                    explicit += 1
        check = R.random() < 0.3
        argv = self.mix(R, args, self.length_args(length), self.verbosity(R), ["--check"] if check else [])
        before = w.ready()
        want = {}
        for f in expected:
            f = norm(w, links.get(f, f))
            kind, text = lib(before[f][4], length)
            if text != cli.decode(before[f][4]):
                want[f] = text.encode()
        o.key = (sorted(before), args, check)
        files = [k for k, v in before.items() if v[0] != "dir" and not k.startswith("..")]
        o.counts.update(trees=1, markdown_files=len(md), other_files=len(files) - len(md), explicit_files=explicit,
                        metacharacters=sum(any(c in f for c in "[]*?") for f in expected), deep_files=sum(f.count("/") > 2 for f in expected))
        if i % 60 == 0:
            o.sample = dict(argv=argv, tree=files[:12])
        # (something on standard input is none of its business)
        poison = R.random() < 0.5
        res = self.run(R, w, o, argv, b"# zzSTDINzz\n\ntext  text\n" if poison else None)
        after = w.snapshot()
        if res.code != (1 if check and want else 0):
            return self.bad(o, "exit status %s" % res.code, w, argv, res, tree=sorted(files), expected=sorted(set(expected)))
        o.counts.update(with_stdin=int(poison), no_files=int(not expected), links=len(links))
        if b"zzSTDINzz" in res.out:
            return self.bad(o, "standard input is read although a directory is given", w, argv, res, tree=sorted(files), expected=sorted(expected))
        t = cli.touched(before, after)
        if check:
            if t:
                return self.bad(o, "--check changes files", w, argv, res, touched=t)
        else:
            if set(t) != set(want):
                return self.bad(o, "other files are processed than those beneath the directory", w, argv, res, tree=sorted(files), not_processed=sorted(set(want) - set(t)), links=links,
                                wrongly_processed=sorted(set(t) - set(want)))
            for f, data in want.items():
                if after[f][4] != data:
                    return self.bad(o, "a file beneath a directory is not formatted as the library does", w, argv, res, path=f)
        c = cli.counts(res)
        if len(expected) == len(set(expected)):
            a, b = ("would_change", "would_keep") if check else ("changed", "kept")
            have = (c.get(a, 0), c.get(b, 0))
            if have != (len(want), len(expected) - len(want)):
                return self.bad(o, "not every file beneath the directory is processed exactly once", w, argv, res, tree=sorted(files), expected=sorted(expected),
                                counts=have)


CHECK = C22()
