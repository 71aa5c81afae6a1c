"""Formats the texts on stdin ([[text, width], ...] in JSON) in this process."""
import json
import os
import sys

sys.path[:0] = json.loads(os.environ["MV_PATHS"])
sys.path.remove(os.path.dirname(os.path.abspath(__file__)))
from mv import sut  # noqa: E402

out = []
for text, width in json.loads(sys.stdin.buffer.read()):
    k, v = sut.fmt(text, width)
    out.append([k, v.split(":")[0] if k == "exc" else v])
sys.stdout.buffer.write(json.dumps(out).encode())
