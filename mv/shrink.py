"""Shrinking of document trees and of plain texts."""
import copy
import time


def _variants(seq):
    """Smaller versions of a sequence of blocks."""
    n = len(seq)
    for size in (n // 2, 1):
        if 0 < size < n:
            for i in range(0, n, size):
                rest = seq[:i] + seq[i + size:]
                if rest:
                    yield [(0 if j == 0 else b, blk) for j, (b, blk) in enumerate(rest)]
    for i, (blanks, b) in enumerate(seq):
        if blanks > 1:
            yield seq[:i] + [(1, b)] + seq[i + 1:]
        # replace a container by its content
        if b.kind == "quote":
            yield seq[:i] + [(blanks if j == 0 else k, x) for j, (k, x) in enumerate(b.kids)] + seq[i + 1:]
        if b.kind in ("ul", "ol"):
            for it in b.items:
                yield seq[:i] + [(blanks if j == 0 else k, x) for j, (k, x) in enumerate(it)] + seq[i + 1:]
        for v in _block_variants(b):
            yield seq[:i] + [(blanks, v)] + seq[i + 1:]


def _with(b, **kw):
    c = copy.copy(b)
    c.__dict__.update(kw)
    return c


def _cut(xs, keep=0):
    n = len(xs)
    for size in (n // 2, n // 4, 1):
        if size:
            for i in range(keep, n, size):
                yield xs[:i] + xs[i + size:]


def _toks(tokens):
    for t in _cut(tokens, 1):
        ok = all(
            k != "dest" or t[i - 1][1].endswith(("](", "][")) for i, (_, _, k) in enumerate(t)
        ) and all(not x.endswith(("](", "][")) or i + 1 < len(t) and t[i + 1][2] == "dest" for i, (_, x, k) in enumerate(t) if k != "code")
        opened = False
        for _, x, k in t:
            if k != "code" and x.lstrip("*_(\"").startswith(("[", "![")):
                opened = True
            if k != "code" and "](" in x or "][" in x:
                ok = ok and opened
                opened = False
        if ok:
            yield t


def _block_variants(b):
    k = b.kind
    if k == "para":
        for segs in _cut(b.segs):
            if segs:
                yield _with(b, segs=segs)
        for i, (toks, hard) in enumerate(b.segs):
            if hard and i == len(b.segs) - 1:
                yield _with(b, segs=b.segs[:i] + [(toks, "")])
            for t in _toks(toks):
                yield _with(b, segs=b.segs[:i] + [(t, hard)] + b.segs[i + 1:])
    elif k in ("atx", "setext"):
        for t in _toks(b.tokens):
            yield _with(b, tokens=t)
    elif k in ("fence", "icode"):
        for li in _cut(b.lines):
            if li or k == "fence":
                if k == "icode" and not (li[0].strip() and li[-1].strip()):
                    continue
                yield _with(b, lines=li)
    elif k == "quote":
        if b.lead and b.kids:
            yield _with(b, lead=0)
        if b.trail:
            yield _with(b, trail=0)
        for v in _variants(b.kids):
            yield _with(b, kids=v)
    elif k in ("ul", "ol"):
        for items in _cut(b.items):
            if items:
                yield _with(b, items=items)
        for i, it in enumerate(b.items):
            for v in _variants(it):
                yield _with(b, items=b.items[:i] + [v] + b.items[i + 1:])
    elif k == "table":
        for rows in _cut(b.rows):
            yield _with(b, rows=rows)
        if len(b.aligns) > 1:
            for i in range(len(b.aligns)):
                d = lambda r: r[:i] + r[i + 1:]
                yield _with(b, aligns=d(b.aligns), header=d(b.header), rows=[d(r) for r in b.rows])
    elif k == "lrd":
        if b.title:
            for t in _cut(b.title[1:-1]):
                yield _with(b, title=b.title[:1] + t + b.title[-1:])


def shrink(seq, fails, seconds=5.0):
    """Greedily shrink a tree while fails(tree) holds."""
    end = time.time() + seconds
    again = True
    while again and time.time() < end:
        again = False
        for v in _variants(seq):
            if time.time() > end:
                break
            try:
                bad = fails(v)
            except Exception:
                bad = False
            if bad:
                seq = v
                again = True
                break
    return seq


def shrink_text(text, fails, seconds=4.0):
    """ddmin-like shrinking of a text by lines, then by characters."""
    end = time.time() + seconds
    for split in (lambda t: t.splitlines(True), list):
        parts = split(text)
        size = max(1, len(parts) // 2)
        while size and time.time() < end:
            i = 0
            while i < len(parts) and time.time() < end:
                cand = parts[:i] + parts[i + size:]
                try:
                    bad = fails("".join(cand))
                except Exception:
                    bad = False
                if bad:
                    parts = cand
                else:
                    i += size
            size //= 2
        text = "".join(parts)
    return text
