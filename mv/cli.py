"""Runs the markflow command in scratch directories and records what it does.

Most runs happen in a forked child of a process that has MarkFlow imported (fast), as an
unprivileged user; a share are real processes.  Observed are exit status, standard
output and error, the directory tree before and after (content, inode, modification
time), and, in forked runs, every file system event the interpreter's audit hooks tell."""
import io
import json
import os
import pickle
import random
import re
import runpy
import select
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import time
import traceback

from . import sut  # noqa: F401
from .child import Failed
from .run import REPO, digest

NOBODY = 65534
COLUMNS = "3000"
OLD = 1_000_000_000  # modification time given to all files before a run
EVENTS = {
    "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime",
    "os.mkfifo", "os.mknod", "shutil.move", "shutil.copyfile", "shutil.rmtree", "subprocess.Popen", "os.system", "os.exec",
    "os.posix_spawn", "os.fork", "socket.connect", "os.unlink",
}
_can_drop = None


def preload():
    """What MarkFlow imports, so that forked runs need not."""
    import argparse, glob, rich.console, rich.logging, rich.markdown, rich.table, rich.text  # noqa: F401,E401


def can_drop():
    """May a child become another user, and does the code remain readable for it?"""
    global _can_drop
    if _can_drop is None:
        _can_drop = False
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                drop()
                with open(os.path.join(REPO, "markflow", "__main__.py"), "rb") as fh:
                    fh.read()
                os.listdir(os.path.join(REPO, "markflow"))
                code = 0
            finally:
                os._exit(code)
        _can_drop = os.waitpid(pid, 0)[1] == 0
    return _can_drop


def drop():
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


class World:
    """A scratch directory tree.  Work happens in <root>/w, which is the current directory."""

    def __init__(self, base):
        self.root = os.path.join(base, "w" + os.urandom(8).hex())
        os.mkdir(self.root, 0o700)
        self.cwd = os.path.join(self.root, "w")
        os.mkdir(self.cwd)

    def path(self, rel):
        return os.path.join(self.cwd, rel)

    def dir(self, rel):
        os.makedirs(self.path(rel), exist_ok=True)

    def file(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(data)

    def link(self, rel, to, R):
        """A symbolic link to a path of the tree."""
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        to = os.path.realpath(self.path(to))
        os.symlink(to if R.random() < 0.3 else os.path.relpath(to, os.path.realpath(os.path.dirname(p))), p)

    def own(self):
        """Hand the tree over to the user of the run, with old modification times."""
        for d, subs, files in os.walk(self.root, topdown=False):
            for f in files + ["."]:
                p = os.path.join(d, f)
                if os.geteuid() == 0 and can_drop():
                    os.chown(p, NOBODY, NOBODY, follow_symlinks=False)
                os.utime(p, (OLD, OLD), follow_symlinks=False)

    def ready(self):
        self.own()
        return self.snapshot()

    def snapshot(self):
        out = {}
        for d, subs, files in os.walk(self.root):
            for f in files + subs:
                p = os.path.join(d, f)
                st = os.lstat(p)
                rel = os.path.relpath(p, self.cwd)
                if stat.S_ISREG(st.st_mode):
                    with open(p, "rb") as fh:
                        data = fh.read()
                    out[rel] = ("file", stat.S_IMODE(st.st_mode), st.st_ino, st.st_mtime_ns, data)
                elif stat.S_ISLNK(st.st_mode):
                    out[rel] = ("link", 0, st.st_ino, 0, os.readlink(p).encode())
                else:
                    out[rel] = ("dir", stat.S_IMODE(st.st_mode), st.st_ino, 0, b"")
        return out

    def contents(self):
        return {k: v[4] for k, v in self.snapshot().items() if v[0] == "file"}

    def close(self):
        for d, subs, files in os.walk(self.root):
            os.chmod(d, 0o700)
        shutil.rmtree(self.root, ignore_errors=True)


def touched(before, after):
    """Paths created, deleted or modified: {path: how}."""
    out = {}
    for k in sorted(set(before) | set(after)):
        a, b = before.get(k), after.get(k)
        if a is None:
            out[k] = "created"
        elif b is None:
            out[k] = "deleted"
        elif a[0] != b[0] or a[4] != b[4]:
            out[k] = "changed"
        elif a[1] != b[1]:
            out[k] = "mode changed"
        elif a[2:4] != b[2:4]:
            out[k] = "rewritten"
    return out


class Result:
    def __init__(self, code, out, err, events, real):
        self.code, self.out, self.err, self.events, self.real = code, out, err, events, real

    def brief(self):
        return dict(exit=self.code, stdout=_squeeze(self.out)[-800:], stderr=_squeeze(self.err)[-800:])

    @property
    def lines(self):
        return [li.strip() for li in self.out.decode("utf-8", "replace").split("\n") if li.strip()]


def _squeeze(b):
    return re.sub(r" {3,}", "  ", b.decode("utf-8", "replace"))


def run(world, argv, stdin=None, real=False, entry=0, seconds=40):
    """stdin: bytes (piped) or None (/dev/null... which is piped and empty)."""
    argv = list(argv)
    return _real(world, argv, stdin, seconds) if real else _forked(world, argv, stdin, entry, seconds)


def _env():
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "COLUMNS": COLUMNS, "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1", "PYTHONHASHSEED": "0",
         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": REPO, "PYTHONPYCACHEPREFIX": sys.pycache_prefix or "/nonexistent"}
    return e


def _real(world, argv, stdin, seconds):
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "markflow"] + argv, input=b"" if stdin is None else stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=world.cwd, env=_env(), timeout=seconds, preexec_fn=drop if can_drop() else None)
    except subprocess.TimeoutExpired:
        raise Failed("timeout of a real process")
    return Result(p.returncode, p.stdout, p.stderr, None, True)


def terminal(world, argv, seconds=40):
    """A real process whose standard input is a terminal; None when it waits for input."""
    master, slave = os.openpty()
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "markflow"] + argv, stdin=slave, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=world.cwd, env=_env(), timeout=seconds, preexec_fn=drop if can_drop() else None)
        return Result(p.returncode, p.stdout, p.stderr, None, True)
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.close(master)
        os.close(slave)


def _child(world, argv, entry, fds, events):
    inp, out, err = fds
    os.dup2(inp, 0)
    os.dup2(out, 1)
    os.dup2(err, 2)
    if can_drop():
        drop()
    os.chdir(world.cwd)
    os.umask(0o022)
    os.environ.clear()
    os.environ.update(_env())
    sys.path[:] = [REPO] + [p for p in sys.path if p != REPO and not p.startswith("/verif")]
    sys.stdin = sys.__stdin__ = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "r", closefd=False)), encoding="utf-8", errors="strict", newline="\n")
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8", errors="strict")
    sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), encoding="utf-8", errors="backslashreplace",
                                                 line_buffering=True)
    sys.argv = ["markflow"] + argv
    import logging
    logging.disable(logging.NOTSET)
    import rich
    rich._console = None

    on = [True]

    def hook(event, args):
        if not on[0]:
            return
        if event == "open":
            path, mode, flags = args
            w = isinstance(mode, str) and set(mode) & set("wax+") or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if w and not isinstance(path, int):
                events.append(("write", os.fsdecode(path)))
            elif not isinstance(path, int) and isinstance(path, str) and path.endswith(".md"):
                events.append(("read", path))
        elif event in EVENTS:
            events.append((event, repr(args)[:200]))

    sys.addaudithook(hook)
    code = 0
    try:
        if entry == 0:
            runpy.run_module("markflow", run_name="__main__", alter_sys=False)
        else:
            from markflow.__main__ import __main__
            __main__()
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    on[0] = False
    try:
        sys.stdout.flush()
    except Exception:
        code = 120
    sys.stderr.flush()
    return code


def _forked(world, argv, stdin, entry, seconds):
    fds = []
    for data in (stdin or b"", None, None):
        f = tempfile.TemporaryFile(dir=os.path.dirname(world.root))
        if data:
            f.write(data)
            f.seek(0)
        fds.append(f)
    r, w = os.pipe()
    # (piped standard input is no terminal; a file does as well)
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            events = []
            code = _child(world, argv, entry, [f.fileno() for f in fds], events)
            os.write(w, pickle.dumps((code, events[:200])))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    end = time.monotonic() + seconds
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise Failed("timeout of a run")
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    outs = []
    for f in fds[1:]:
        f.seek(0)
        outs.append(f.read())
    for f in fds:
        f.close()
    if not data:
        raise Failed("the run died: %r" % outs)
    code, events = pickle.loads(data)
    return Result(code, outs[0], outs[1], events, False)


# ------------------------------------------------------------- what runs should do
def decode(data):
    """File content as text, as Python and MarkFlow read it."""
    return data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")


class Library:
    """The library's formatting, remembered."""

    def __init__(self):
        self.memo = {}

    def __call__(self, data, width):
        key = (data, width)
        if key not in self.memo:
            if len(self.memo) > 500:
                self.memo.clear()
            self.memo[key] = sut.fmt(decode(data), width)
        return self.memo[key]


library = Library()


def effective(length):
    return float("inf") if length < 1 else length


# ---------------------------------------------------------------------- messages
COUNTS = {
    "would_change": r"(\d+) files? would be reformatted",
    "would_keep": r"(\d+) files? would be left unchanged",
    "changed": r"(\d+) files? (?:was|were) reformatted",
    "kept": r"(\d+) files? (?:was|were) left unchanged",
}


def counts(res):
    text = "\n".join(res.lines)
    out = {}
    for k, rx in COUNTS.items():
        m = re.findall(rx, text)
        if m:
            out[k] = int(m[-1])
    return out


def reported(res, verb):
    """The paths in lines such as 'would reformat <path>'."""
    return [li[len(verb) + 1:] for li in res.lines if li.startswith(verb + " ")]
