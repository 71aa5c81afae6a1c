"""Runs a function in a forked child and returns what it returns (as pickled data)."""
import os
import pickle
import select
import signal
import time
import traceback


class Failed(Exception):
    pass


def call(fn, seconds=15):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                data = pickle.dumps((True, fn()))
            except BaseException:
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + seconds
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise Failed("timeout")
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        ok, value = pickle.loads(b"".join(chunks))
    except EOFError:
        raise Failed("the child died")
    if not ok:
        raise Failed(value)
    return value
