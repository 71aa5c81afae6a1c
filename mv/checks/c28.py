"""C28: the command works wherever it is installed, and what is asked about it only informs."""
import os
import re
import shutil
import subprocess
import sys

from .. import cli
from ..child import Failed
from ..run import REPO
from .clibase import CliCheck, Files, LENGTHS, lib, spell

USER = ["--line-length", "--check", "--verbose", "--quiet", "--version", "--help"]
DEVELOPER = ["--output-dir", "--output-file", "--write-renders"]
OTHERS = ["rich", "pip", "markdown", "xmarkflow", "markflow_tools", "Pygments", "setuptools", "zipp", "~arkflow", "markflowx", "flow", "aaa", "mark", "MARK"]


class C28(CliCheck):
    id = "C28"
    rule = ("copies of the package laid out as a source checkout (project files of several shapes) and as an installation among other packages' files and metadata, with random "
            "versions; real processes, started as a module or through the entry point, asked for version, help and developer help along with other options and paths, or formatting files and "
            "standard input; output, exit status and the tree. Distinct by (layout, action, options); non-trivial: every run")
    n = dict(quick=700, thorough=8000)
    wall = dict(quick=35, thorough=600)
    reach = dict(source=25, installed=25, version=15, help=15, formatted=20)

    def go(self, R, w, o, i):
        version = ".".join(str(R.choice([0, 1, 2, 3, 9, 10, 27, 100, 2021])) for _ in range(R.choice([1, 2, 3, 3, 3, 4])))
        source = R.random() < 0.5
        home = R.choice(["../proj", "../site-packages", "../lib/python3/site-packages", "../x y", "../markflow", "lib"])
        w.dir(home)
        shutil.copytree(os.path.join(REPO, "markflow"), w.path(home + "/markflow"), ignore=shutil.ignore_patterns("__pycache__"))
        if source:
            w.file(home + "/pyproject.toml", self.project(R, version).encode())
            w.file(home + "/README.md", b"# r\n")
        else:
            self.metadata(w, home, "markflow", version)
            for name in R.sample(OTHERS, R.randint(0, 8)):
                other = "%d.%d" % (R.randrange(30), R.randrange(30))
                if R.random() < 0.8:
                    self.metadata(w, home, name, other)
                if R.random() < 0.5:
                    w.file("%s/%s/__init__.py" % (home, "vendored_" + name.strip("~")), b"")
                if R.random() < 0.2:
                    w.file("%s/%s-%s.egg-info" % (home, name, other), b"Metadata-Version: 2.1\n")
        length = R.choice(LENGTHS)
        F = Files(R, length)
        data = F.good()
        files = []
        for name in R.sample(["a.md", "b.md", "d/c.md", "n.txt"], R.randint(1, 3)):
            w.file(name, F.good())
            files.append(name)
        action = R.choice(["version", "version", "help", "developer", "format", "stdin", "check"])
        paths = [spell(R, f, w) for f in files]
        argv = dict(version=["--version"], help=[R.choice(["--help", "-h"])], developer=[R.choice(["--dev-help", "--developer-help"])], check=["--check"]).get(action, [])
        informs = action in ("version", "help", "developer")
        argv = self.mix(R, paths if not informs or R.random() < 0.5 else [], argv, self.length_args(length), self.verbosity(R), ["--check"] if informs and R.random() < 0.3 else [])
        if action == "stdin":
            argv = [a for a in argv if a not in paths]
        before = w.ready()
        res = self.process(w, home, argv, data if action == "stdin" or R.random() < 0.5 else b"", R)
        after = w.snapshot()
        o.key = (source, home, action, len(argv), version)
        o.counts.update(runs=1, source=int(source), installed=int(not source))
        if i % 40 == 0:
            o.sample = dict(argv=argv, source=source, version=version, stdout=repr(res.out)[:100])
        out = res.out.decode("utf-8", "replace")
        t = cli.touched(before, after)
        if informs:
            if t:
                return self.bad(o, "a run that only informs changes files", w, argv, res, touched=t)
            o.counts["version" if action == "version" else "help"] = 1
            if res.code != 0 and action != "developer":
                return self.bad(o, "exit status %s when asked for %s" % (res.code, action), w, argv, res, source=source, version=version)
            if action == "version":
                found = re.findall(r"(?<![\w.])\d+(?:\.\d+)*(?![\w.])", out)
                if found != [version] or ("development" in out) != source:
                    return self.bad(o, "another version is stated", w, argv, res, version=version, source=source)
            else:
                missing = [x for x in USER[: 5] + (DEVELOPER if action == "developer" else []) if x not in out]
                if missing:
                    return self.bad(o, "the help lacks options", w, argv, res, missing=missing)
            return
        o.counts["formatted"] = 1
        if action == "stdin":
            if res.code != 0 or res.out != lib(data, length)[1].encode() or t:
                return self.bad(o, "standard input is not formatted", w, argv, res, source=source, input=repr(data)[:400], touched=t)
            return
        want = {}
        for f in files:
            text = lib(before[f][4], length)[1]
            if text != cli.decode(before[f][4]):
                want[f] = text.encode()
        if action == "check":
            if t or res.code != int(bool(want)):
                return self.bad(o, "wrong verdict", w, argv, res, touched=t, expected=sorted(want))
            return
        if res.code != 0 or set(t) != set(want) or any(after[f][4] != x for f, x in want.items()):
            return self.bad(o, "files are not formatted as the library does", w, argv, res, source=source, touched=t, expected=sorted(want))

    @staticmethod
    def metadata(w, home, name, version):
        d = "%s/%s-%s.dist-info" % (home, name, version)
        w.file(d + "/METADATA", ("Metadata-Version: 2.1\nName: %s\nVersion: %s\n" % (name, version)).encode())
        w.file(d + "/INSTALLER", b"pip\n")
        w.file(d + "/RECORD", ("%s/__init__.py,,\n" % name).encode())
        w.file(d + "/entry_points.txt", b"[console_scripts]\nmarkflow=markflow.__main__:__main__\n" if name == "markflow" else b"")

    @staticmethod
    def project(R, version):
        """A project file: the version somewhere in its table, other versions further down."""
        line = R.choice(['version = "%s"', 'version="%s"', 'version  =  "%s"', 'version = "%s"  ']) % version
        if R.random() < 0.4:
            with open(os.path.join(REPO, "pyproject.toml"), encoding="utf-8") as fh:
                text = fh.read()
            new, n = re.subn(r'(?m)^version\s*=\s*"[^"]*"\s*$', lambda m: line.rstrip(), text, count=1)
            if n == 1:
                return new
        head = [x for x in ['name = "markflow"', 'description = "the version = \'1.1.1\' of it"', "# version = \"0.0.1\"", 'authors = ["A <a@b.c>"]', 'readme = "README.md"',
                            'minimum-version = "8.8"', 'license = "MIT"'] if R.random() < 0.6]
        head.insert(R.randint(0, len(head)), line)
        tail = ["", "[tool.poetry.dependencies]", 'python = "^3.6"', 'rich = "^1.3.1"', 'x = {version = "7.7", optional = true}', ""]
        if R.random() < 0.5:
            tail += ["[tool.poetry.dependencies.foo]", 'version = "6.6.6"', ""]
        lead = ["[build-system]", 'requires = ["poetry>=0.12"]', ""] if R.random() < 0.4 else []
        return "\n".join(lead + ["[tool.poetry]"] + head + tail)

    @staticmethod
    def process(w, home, argv, stdin, R):
        start = ["-m", "markflow"] if R.random() < 0.5 else ["-c", "import sys; sys.argv[0] = 'markflow'; from markflow.__main__ import __main__; sys.exit(__main__())"]
        env = dict(cli._env(), PYTHONPATH=os.path.normpath(w.path(home)))
        try:
            p = subprocess.run([sys.executable, "-B"] + start + argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w.cwd, env=env, timeout=20,
                               preexec_fn=cli.drop if cli.can_drop() else None)
        except subprocess.TimeoutExpired:
            raise Failed("timeout of a real process")
        return cli.Result(p.returncode, p.stdout, p.stderr, None, True)


CHECK = C28()
