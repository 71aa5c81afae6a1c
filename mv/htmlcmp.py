"""Rendering equivalence: HTML of two independent CommonMark implementations, compared
up to whitespace that HTML ignores and trailing whitespace inside code."""
import re

import commonmark
from markdown_it import MarkdownIt

_DEEP = dict(maxNesting=2000)   # (the default of 20 leaves out what lists ten levels deep hold)
_CM = MarkdownIt("commonmark", _DEEP)
_CMT = MarkdownIt("commonmark", _DEEP).enable("table")
_BLOCK = r"(?:p|ul|ol|li|h[1-6]|blockquote|hr|table|thead|tbody|tr|th|td)"


def norm(html):
    out = []
    for part in re.split(r"(<pre>.*?</pre>)", html, flags=re.S):
        if part.startswith("<pre>"):
            out.append("\n".join(li.rstrip(" \t") for li in part.split("\n")))
        else:
            p = re.sub(r"[ \t\n\r\f\v\x1c-\x1f]+", " ", part)
            p = re.sub(r" *(<br ?/?>) *", r"<br />", p)
            p = re.sub(r" ?(</?%s\b[^>]*>) ?" % _BLOCK, r"\1", p)
            out.append(p)
    return "".join(out).strip()


def mi(text, tables=False):
    return norm((_CMT if tables else _CM).render(text))


def cm(text):
    return norm(commonmark.commonmark(text))


def _cm_without_tables(text):
    """The second implementation knows no tables, they are paragraphs to it."""
    def squash(m):
        return re.sub(r"[ |:-]+", "", m.group()) if "|" in m.group() else m.group()
    return re.sub(r"<p>.*?</p>", squash, cm(text), flags=re.S)


def same(a, b, tables=False):
    """Do both texts render alike?  Only if both implementations disagree, they do not."""
    x, y = mi(a, tables), mi(b, tables)
    if x == y:
        return True
    if tables:
        find = re.compile(r"<table>.*?</table>", re.S)
        return find.findall(x) == find.findall(y) and _cm_without_tables(a) == _cm_without_tables(b)
    return cm(a) == cm(b)
