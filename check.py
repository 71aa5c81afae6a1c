"""check.py --property Cxx [--tier quick|thorough] [--seed N] | --replay FILE

Decides one property of MarkFlow by running it under a monitor.  See DESIGN.md."""
import argparse
import atexit
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MARKFLOW_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    p.add_argument("--selftest", action="store_true")
    a = p.parse_args()
    if os.environ.get("MV_CHILD") != "1":
        # A fixed environment; no bytecode from or into the repository
        env = dict(os.environ, MV_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
                   COLUMNS="100000", LC_ALL="C.UTF-8")
        for k in ("PYTHONPATH", "PYTHONSTARTUP", "NO_COLOR", "FORCE_COLOR", "TERM"):
            env.pop(k, None)
        os.execve(PYTHON, [PYTHON, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    cache = tempfile.mkdtemp(prefix="mv-pyc-")
    os.chmod(cache, 0o755)
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(cache, ignore_errors=True))
    sys.pycache_prefix = cache
    sys.dont_write_bytecode = True
    sys.path[:0] = [HERE, REPO]
    from mv import run
    if a.selftest:
        import commonmark  # noqa: F401
        import markdown_it  # noqa: F401
        from mv import sut
        for k in range(1, 29):
            importlib.import_module("mv.checks.c%02d" % k)
        assert sut.fmt("a  b\n")[0] == "ok"
        print("ready: " + sys.version.split()[0])
        return 0
    if a.replay:
        with open(a.replay) as fh:
            rep = json.load(fh)
        check = importlib.import_module("mv.checks." + rep["property"].lower()).CHECK
        check.scratch = run.scratch_directory("mv-replay-")
        try:
            origin = str(rep["case"])
            if origin.startswith(("pinned:", "extra:")):
                kind, name = origin.split(":", 1)
                cases = check.pinned() if kind == "pinned" else check.extra(rep["tier"], rep["seed"])
                obs = [fn() for n, fn in cases if n == name][0]
            else:
                i = int(origin)
                obs = check.case(run.rng(rep["seed"], check.id, i), i, rep["tier"])
        finally:
            shutil.rmtree(check.scratch, ignore_errors=True)
        print(json.dumps(obs.viol, indent=1, default=repr, ensure_ascii=False))
        return 1 if obs.viol else 0
    check = importlib.import_module("mv.checks." + a.property.lower()).CHECK
    return run.main(check, a.seed, a.tier)


if __name__ == "__main__":
    sys.exit(main())
