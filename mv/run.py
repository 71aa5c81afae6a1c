"""Runs a check: cases in parallel worker processes, a monitor judging each, evidence.

A check is an object with
  id, rule, level            what it decides and how its cases are made
  n = {tier: cases}, wall = {tier: seconds}
  case(R, i, tier) -> Obs    one execution and the monitor's verdict on it
  pinned() -> [(name, fn)]   executions made every time; fn() -> Obs
  known() -> {key: fn}       witnesses of known findings; fn() -> True while they fail
  extra(tier, seed)          optional: runs in the parent; yields Obs
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MARKFLOW_REPO", "/repo")
# For tools/mutate.py: fewer executions, elsewhere
WORKERS = int(os.environ.get("MV_WORKERS", min(8, os.cpu_count() or 1)))
SCALE = float(os.environ.get("MV_SCALE", 1))
OUT = os.environ.get("MV_OUT", VERIF)
CASE_SECONDS = 20


class Watchdog(BaseException):
    """A case took far too long: inconclusive."""


class Obs:
    """What the monitor observed in one execution."""

    __slots__ = ("key", "counts", "viol", "size", "sample", "nontrivial")

    def __init__(self, key=None, nontrivial=True, sample=None, **counts):
        self.key = key              # identifies the case among distinct ones
        self.nontrivial = nontrivial
        self.counts = counts        # events the monitor saw
        self.viol = None
        self.size = 0
        self.sample = sample

    def violation(self, what, **detail):
        if self.viol is None:
            self.viol = dict(what=what, **detail)
            self.size = len(str(detail.get("input", "")))
        return self


def digest(*parts):
    return hashlib.blake2b(repr(parts).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def rng(seed, check, i):
    return random.Random("%s/%s/%s" % (seed, check, i))


_check = None
_args = None


def _init(check, args):
    global _check, _args
    _check, _args = check, args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _alarm(*_):
    raise Watchdog


def guarded(fn, seconds=CASE_SECONDS):
    """Run fn under the watchdog; exceptions of the harness itself become errors."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    except Watchdog:
        o = Obs(nontrivial=False, watchdog=1)
        return o
    except Exception:
        o = Obs(nontrivial=False, harness_errors=1)
        o.sample = traceback.format_exc()[-1500:]
        return o
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(span):
    seed, tier = _args
    seconds = getattr(_check, "case_seconds", CASE_SECONDS)
    out = []
    for i in range(*span):
        o = guarded(lambda: _check.case(rng(seed, _check.id, i), i, tier), seconds)
        out.append((i, o))
        if o.viol or o.counts.get("watchdog"):
            # tell at once; the rest of the chunk is left out
            break
    return out


def load_known():
    """known_findings.txt: lines 'open: property=<id> key=<key> <what fails>' and
    'fixed: property=<id> <commit> <what failed>'."""
    out = collections.defaultdict(dict)
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                if line.startswith("open: "):
                    _, prop, key, what = line.rstrip("\n").split(" ", 3)
                    out[prop.split("=", 1)[1]][key.split("=", 1)[1]] = what
    return out


def scratch_directory(prefix):
    """Like tempfile.mkdtemp, with a name that has only letters, digits and dashes."""
    while True:
        path = os.path.join(tempfile.gettempdir(), prefix + os.urandom(5).hex())
        try:
            os.mkdir(path, 0o755)
            os.chmod(path, 0o755)
            return path
        except FileExistsError:
            pass


def main(check, seed, tier):
    t0 = time.time()
    wall = check.wall[tier]
    total = int(check.n[tier] * SCALE)
    # what the check itself creates goes into a directory that is removed afterwards
    scratch = scratch_directory("mv-%s-" % check.id)
    check.scratch = scratch
    counts = collections.Counter()
    keys = set()
    samples = []
    viols = []
    done = 0
    evaluations = 0
    errors = []

    def take(obs, origin):
        nonlocal evaluations
        evaluations += 1
        counts.update(obs.counts)
        if obs.counts.get("harness_errors") and len(errors) < 3:
            errors.append("%s: %s" % (origin, obs.sample))
            return
        if obs.nontrivial and obs.key is not None:
            keys.add(digest(obs.key))
        if obs.sample is not None and len(samples) < 12 and not obs.counts.get("harness_errors"):
            samples.append(obs.sample)
        if obs.viol:
            viols.append((obs.size, len(viols), origin, obs.viol))

    try:
        print("%s: tier=%s seed=%s" % (check.id, tier, seed), flush=True)
        # known findings
        open_findings = load_known().get(check.id, {})
        witnesses = check.known() if hasattr(check, "known") else {}
        for key in sorted(open_findings):
            fails = False
            if key in witnesses:
                res = guarded(lambda: Obs(nontrivial=bool(witnesses[key]())), 60)
                fails = res.nontrivial
            if fails:
                counts["known_findings_seen"] += 1
                print("KNOWN-FINDING: property=%s %s" % (check.id, open_findings[key]), flush=True)
            else:
                print("note: known finding %s of %s no longer fails" % (key, check.id), flush=True)
        # pinned executions
        for name, fn in (check.pinned() if hasattr(check, "pinned") else []):
            take(guarded(fn, 60), "pinned:" + name)
            counts["pinned"] += 1
        if hasattr(check, "extra"):
            for name, fn in check.extra(tier, seed):
                take(guarded(fn, getattr(check, "extra_seconds", 120)), "extra:" + name)
                if time.time() - t0 > wall:
                    break
        # generated executions
        if total:
            ctx = mp.get_context("fork")
            pool = ctx.Pool(WORKERS, _init, (check, (seed, tier)))
            try:
                chunk = max(1, min(25, total // (WORKERS * 20) or 1))
                it = pool.imap_unordered(_work, [(a, min(total, a + chunk)) for a in range(0, total, chunk)])
                nviol = len(viols)
                stop_at = None
                while True:
                    try:
                        batch = it.next(timeout=5)
                    except StopIteration:
                        break
                    except mp.TimeoutError:
                        if time.time() - t0 > wall + 60:
                            counts["workers_stuck"] += 1
                            break
                        continue
                    for i, obs in batch:
                        take(obs, i)
                        done += 1
                    now = time.time()
                    if len(viols) > nviol and stop_at is None:
                        stop_at = now + 3
                    if now - t0 > wall or (stop_at and now > stop_at):
                        break
            finally:
                pool.terminate()
                pool.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    if samples:
        rs = random.Random(seed)
        samples = rs.sample(samples, min(4, len(samples)))
    cut = done < total
    missing = []
    if not viols and SCALE == 1:
        for name, least in check.reach.items():
            if counts[name] < least:
                missing.append("%s: %d < %d" % (name, counts[name], least))
    evidence = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": check.rule,
            "samples": samples,
            "observed": dict(sorted(counts.items())),
            "stopped_by_time": cut and not viols,
        },
        "assumptions": list(getattr(check, "assumptions", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", check.id + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=True)
    print("%s: %d executions, %d distinct non-trivial, %s, %.1f s" % (
        check.id, evaluations, len(keys), ", ".join("%s=%d" % kv for kv in sorted(counts.items())), time.time() - t0))
    if errors:
        print("\n".join(errors), file=sys.stderr)

    if viols:
        viols.sort(key=lambda v: v[:2])
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        seen = set()
        for size, _, origin, v in viols:
            if v["what"] in seen or len(seen) >= 3:
                continue
            seen.add(v["what"])
            if not str(origin).startswith(("pinned", "extra")) and hasattr(check, "shrink"):
                try:
                    v = check.shrink(v) or v
                except Exception:
                    pass
            path = os.path.join(OUT, "replays", "%s-%d.json" % (check.id, len(seen)))
            with open(path, "w") as fh:
                json.dump({"property": check.id, "seed": seed, "tier": tier, "case": origin, "violation": v}, fh,
                          indent=1, ensure_ascii=True, default=repr)
            print("  case %s: %s" % (origin, v["what"]))
            for k, x in v.items():
                if k != "what":
                    print("    %s: %s" % (k, (x if isinstance(x, str) and "\n" not in x else repr(x))[:600]))
            print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
        return 1
    if errors or counts["workers_stuck"] or missing:
        print("INCONCLUSIVE %s: %s" % (check.id, "; ".join(missing) or "harness error or stuck workers"))
        return 2
    print("%s: held on everything explored" % check.id)
    return 0
