"""Families of growing texts: name -> function of a size n giving a text of length O(n)."""


def nest(prefix, n, tail="x"):
    return prefix * n + tail + "\n"


def staircase(n, marker="- "):
    """A list nested n deep, one entry a line: length O(n^2), so n grows with the root."""
    k = max(1, int(n ** 0.5))
    return "".join(" " * (len(marker) * i) + marker + "x\n" for i in range(k))


W = "some words of text "
FLAT = {
    "words": lambda n: W * n + "\n",
    "lines": lambda n: "some words of text\n" * n,
    "paragraphs": lambda n: "some words\nof text\n\n" * n,
    "long word": lambda n: "x" * (20 * n) + "\n",
    "bullets": lambda n: "- item text\n" * n,
    "loose bullets": lambda n: "- item text\n\n" * n,
    "bullets with paragraphs": lambda n: "- item\n\n  text\n\n" * n,
    "numbers": lambda n: "1. item text\n" * n,
    "numbers with code": lambda n: "1. item\n\n       code\n\n" * n,
    "two-level list": lambda n: "- a\n  - b\n  - c\n" * n,
    "sub list of one item": lambda n: "- a\n" + "  - b\n" * n,
    "lists and paragraphs": lambda n: "- a\n\ntext\n\n" * n,
    "alternating lists": lambda n: "- a\n\n1. b\n\n" * n,
    "quote lines": lambda n: "> quoted text\n" * n,
    "lazy lines": lambda n: "> quoted text\n" + "lazy text\n" * n,
    "alternating lazy": lambda n: "> quoted\nlazy\n" * n,
    "quotes": lambda n: "> quoted text\n\n" * n,
    "quoted paragraphs": lambda n: "> text\n>\n" * n,
    "quoted list": lambda n: "> - item\n" * n,
    "quoted lazy list": lambda n: "> - item\nlazy\n" * n,
    "quote levels": lambda n: "> a\n> > b\n" * n,
    "quote levels and blanks": lambda n: "> a\n>\n> > b\n>\n" * n,
    "list of quotes": lambda n: "- > a\n  > b\n" * n,
    "list of lazy quotes": lambda n: "- > a\nb\n" * n,
    "items with fences": lambda n: "- a\n\n  ```\n  x\n  ```\n\n" * n,
    "headings": lambda n: "# heading\n" * n,
    "underlined headings": lambda n: "heading\n===\n\n" * n,
    "long underlined heading": lambda n: "heading text\n" * n + "===\n",
    "rules": lambda n: "---\n" * n,
    "spaced rules": lambda n: "* * *\n" * n,
    "long spaced rule": lambda n: "* " * (10 * n) + "\n",
    "almost a rule": lambda n: "* " * (10 * n) + "x\n",
    "long rule": lambda n: "-" * (20 * n) + "\n",
    "underline": lambda n: "=" * (20 * n) + "\n",
    "fence": lambda n: "```\n" + "code line\n" * n + "```\n",
    "open fence": lambda n: "```\n" + "code line\n" * n,
    "fences": lambda n: "```\ncode\n```\n" * n,
    "open tilde fences": lambda n: "~~~ x\n\ntext\n" * n,
    "indented code": lambda n: "    code line\n" * n,
    "indented codes": lambda n: "    code\n\ntext\n\n" * n,
    "indented blank lines": lambda n: "    code\n" + "\n" * (5 * n) + "    code\n",
    "blank lines": lambda n: "\n" * (10 * n),
    "blank lines then text": lambda n: "a\n" + "\n" * (10 * n) + "b\n",
    "spaces": lambda n: " " * (20 * n) + "\n",
    "spaces in text": lambda n: "a" + " " * (20 * n) + "b\n",
    "trailing spaces": lambda n: ("a" + " " * 20 + "\n") * n,
    "tabs": lambda n: "\t" * (10 * n) + "x\n",
    "hard breaks": lambda n: "text\\\nmore  \n" * n,
    "html breaks": lambda n: "text<br>more <br /> and<br/>" * n + "\n",
    "table rows": lambda n: "| a | b |\n|---|---|\n" + "| c | d |\n" * n,
    "table columns": lambda n: "| a " * n + "|\n" + "|---" * n + "|\n" + "| b " * n + "|\n",
    "long cell": lambda n: "| a | b |\n|---|---|\n| " + "c " * (5 * n) + "| d |\n",
    "escaped pipes": lambda n: "| a | b |\n|---|---|\n| " + "\\|" * (5 * n) + " | d |\n",
    "tables": lambda n: "| a | b |\n|---|---|\n| c | d |\n\n" * n,
    "pipes": lambda n: "|" * (10 * n) + "\n",
    "wide divider": lambda n: "| a |\n|" + "-" * (20 * n) + "|\n",
    "definitions": lambda n: "".join("[l%d]: /url 'title'\n" % i for i in range(n)),
    "long title": lambda n: "[l]: /url '" + "word " * (4 * n) + "'\n",
    "title lines": lambda n: "[l]: /url '" + "word\n" * n + "'\n",
    "open title": lambda n: "[l]: /url '" + "word\n" * n + "\n",
    "long label": lambda n: "[" + "l" * (20 * n) + "]: /url\n",
    "long url": lambda n: "[l]: " + "/url" * (5 * n) + "\n",
    "open definitions": lambda n: "[l]:\n" * n,
    "titles to escape": lambda n: "[l]: /url '" + "\\'" * (5 * n) + "'\n",
    "escaped quotes then open": lambda n: "[l]: /url '" + "\\'" * (5 * n) + "\n",
    "links": lambda n: "[text](/url) " * n + "\n",
    "glued links": lambda n: "[text](/url)" * n + "\n",
    "images": lambda n: "![text](/url) " * n + "\n",
    "links in links": lambda n: "[![t](/i)](/u) " * n + "\n",
    "references": lambda n: "[text][ref] " * n + "\n\n[ref]: /u\n",
    "codes": lambda n: "`code span` " * n + "\n",
    "glued codes": lambda n: "`a`b" * (4 * n) + "\n",
    "long code": lambda n: "`" + "code " * (4 * n) + "`\n",
    "open code": lambda n: "`" + "code " * (4 * n) + "\n",
    "growing backticks": lambda n: " ".join("`" * (i % 40 + 1) for i in range(n)) + "\n",
    "backtick runs": lambda n: "`a ``b " * (2 * n) + "\n",
    "emphasis": lambda n: "*some* **text** " * n + "\n",
    "stars": lambda n: "*" * (20 * n) + "\n",
    "stars and letters": lambda n: "*a " * (5 * n) + "\n",
    "underscores": lambda n: "_" * (20 * n) + "\n",
    "open brackets": lambda n: "[" * (20 * n) + "\n",
    "brackets": lambda n: "[" * (10 * n) + "]" * (10 * n) + "\n",
    "spaced brackets": lambda n: "[a " * (5 * n) + "\n",
    "open links": lambda n: "[a](" * (5 * n) + "\n",
    "parentheses": lambda n: "[a](" + "(" * (10 * n) + ")" * (10 * n) + ")\n",
    "images open": lambda n: "![" * (10 * n) + "\n",
    "angle brackets": lambda n: "<" * (20 * n) + "\n",
    "angle words": lambda n: "<a " * (5 * n) + "\n",
    "tags": lambda n: "<b>x</b> " * (2 * n) + "\n",
    "backslashes": lambda n: "\\" * (20 * n) + "\n",
    "escapes": lambda n: "\\*\\_\\`" * (4 * n) + "\n",
    "hazards": lambda n: "word # word > word - word + word 1. word " * n + "\n",
    "only hazards": lambda n: "# > - + * 1. " * n + "\n",
    "dots": lambda n: ". " * (10 * n) + "\n",
    "commas": lambda n: "a,b,c " * (4 * n) + "\n",
    "hashes": lambda n: "#" * (20 * n) + "\n",
    "digits": lambda n: "1" * (20 * n) + ". x\n",
    "wide characters": lambda n: "日本語 " * (4 * n) + "\n",
    "carriage returns": lambda n: "a\r" * (5 * n),
    "mixed": lambda n: ("# h\n\ntext `code` [l](/u)\n\n- a\n  - b\n\n> q\nlazy\n\n```\nx\n```\n\n| a |\n|---|\n| b |\n\n---\n\n") * n,
}
# nesting depth grows with n (kept within the interpreter's recursion limit)
DEEP = {
    "nested quotes": lambda n: nest("> ", n),
    "tight nested quotes": lambda n: nest(">", n),
    "nested quotes and lazy": lambda n: nest("> ", n) + "lazy\n" * n,
    "nested bullets": lambda n: nest("- ", n),
    "nested numbers": lambda n: nest("1. ", n),
    "alternating nest": lambda n: nest("> - ", max(1, n // 2)),
    "alternating nest and lazy": lambda n: nest("> - ", max(1, n // 2)) + "lazy\n",
    "numbers in quotes": lambda n: nest("> 1. ", max(1, n // 2)) + "lazy\n" * 3,
    "bullets of quotes": lambda n: nest("- > ", max(1, n // 2)) + "lazy\n" * 3,
    "staircase": lambda n: "".join("  " * i + "- x\n" for i in range(n)),
    "staircase with text": lambda n: "".join("  " * i + "- x\n\n" + "  " * i + "  text\n\n" for i in range(n)),
    "number staircase": lambda n: "".join("   " * i + "1. x\n" for i in range(n)),
    "quote staircase": lambda n: "".join("> " * (i + 1) + "x\n" for i in range(n)),
    "quote staircase down": lambda n: "".join("> " * (n - i) + "x\n" for i in range(n)),
    "quote staircase with blanks": lambda n: "".join("> " * (i + 1) + "x\n" + "> " * (i + 1) + "\n" for i in range(n)),
    "zigzag": lambda n: "".join("  " * (i % max(1, n // 2)) + "- x\n" for i in range(2 * n)),
    "quoted zigzag": lambda n: "".join("> " * (i % max(1, n // 2) + 1) + "x\n" for i in range(2 * n)),
    "quoted code": lambda n: nest("> ", n, "    code"),
    "quoted fence": lambda n: nest("> ", n, "```") + nest("> ", n, "code") + nest("> ", n, "```"),
}
