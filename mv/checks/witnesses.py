"""Texts that once went wrong (pinned executions) and witnesses of known findings."""
import math

INF = math.inf
ALL = [1, 2, 5, 10, 20, 40, 88, INF]

# (name, text, widths): must render to the same HTML and keep all letters
HTML = [
    ("lrd-long-title", "[label]: /dest \"some title that is far too long\"\n\n[label]\n", ALL),
    ("lrd-then-text", "[a]: /u\n\ntext [a]\n", ALL),
    ("lrd-two-titles", "[a]: /u 'one two'\n[b]: /v \"three four\"\n\n[a] [b]\n", ALL),
    ("lrd-own-dest", "[a]:\n/u 'title here'\n\n[a]\n", ALL),
    ("code-start", "```x``` text\n\nmore\n", [88, INF]),
    ("open-fence", "```\ncode\nlast line", ALL),
    ("open-fence-tilde", "~~~ sh\ncode\n\nlast\n", ALL),
    ("long-close", "```\ncode\n`````\ntext\n", ALL),
    ("fence-in-fence", "````\n```\ncode\n```\n````\ntext\n", ALL),
    ("tilde-in-backticks", "```\n~~~\n```\n\ntext\n", ALL),
    ("spaced-hr", "a\n\n* * *\n\nb\n\n- - -\n\n_ _ _\n\nc\n", ALL),
    ("hr-short", "a\n\n---\n\nb\n", ALL),
    ("quote-hard-break", "> a  \n> b\\\n> c\n", ALL),
    ("empty-atx", "#\n\n##\n\ntext\n", ALL),
    ("table-escape", "| a\\|b | c |\n| --- | --- |\n| d | e\\|f |\n", ALL),
    ("table-open-row", "| a | b |\n|---|---|\n| c | d\n| e | f |\n", ALL),
    ("table-empty-center", "|a| |\n|---|:-:|\n|b| |\n", ALL),
    ("escape-code", "a \\`b `c d` e\n", ALL),
    ("adjacent-links", "[a](/b)[c](/d) [e](/f) [g](/h)\n", ALL),
    ("adjacent-images", "![a](/b)![c](/d) ![e](/f)![g](/h)\n", ALL),
    ("break-places", "some - text # with 1. odd + words > here\n", ALL),
    ("break-rule", "aaa --- bbb *** ccc ___ ddd === eee\n", ALL),
    ("break-fence", "aaa ~~~ bbb ~~~\n", ALL),
    ("backslash-break", "one\\\ntwo\\\nthree\n", ALL),
    ("hard-break-end", "one\\\ntwo  \n", ALL),
    ("ol-indent", "9. a\n\n   b\n10. c\n\n    d\n", ALL),
    ("list-content", "- a\n\n  para\n\n      code\n\n  - b\n", ALL),
    ("list-fence", "- ```\n  # x\n  - y\n  ```\n- z\n", ALL),
    ("list-quote", "- > a\n  > b\n\n  c\n", ALL),
    ("list-heading", "- a\n# b\n", ALL),
    ("list-then-quote", "- a\n> b\n", ALL),
    ("form-feed", "a\x0cb\u2028c\u0085d\n", [88]),
    ("lazy", "> a\nb\n> c\nd\n", ALL),
    ("lazy-list", "> - a\nb\n", ALL),
    ("lazy-code", "> a\n>     b\nc\n", ALL),
    ("lazy-nested", "> > a\nb\n", ALL),
    ("lazy-quote-in-list", "> 1. > xi\n>    > (a\n>    > ***iota***\n   tau\n", ALL),
    ("icode-fence", "    ```\n    x\n\ntext\n", ALL),
    ("link-after-link", "[a](/b)[c d e f](/long/destination)\n", ALL),
    ("escaped-br", "a \\<br> b\n", ALL),
    ("br", "a<br>b<br/>c <br /> d\n", ALL),
    ("empty-item", "- a\n-\n- b\n\n1.\n2. x\n", ALL),
    ("only-empty-item", "-\n\n*\n", ALL),
    ("deep-list", "- a\n  - b\n    1. c\n       - d\n\n         e\n", ALL),
    ("quote-list-quote", "> - a\n>   > b\n>   >\n>   > c\n", ALL),
    ("item-code", "1.     code\n\n   text\n", ALL),
    ("loose", "- a\n\n- b\n\n\n- c\n", [88]),
    ("ol-big", "99. a\n100. b\n101. c\n     d\n", ALL),
    ("setext-multi", "one two\nthree\n===\n\nfour\n---\n", ALL),
    ("quoted-fence", "> ```\n> > not a quote\n> ```\n> text\n", ALL),
    ("quoted-icode", ">     code\n>\n> text\n", ALL),
    ("entity", "&amp; &copy; \\&amp; a&b\n", ALL),
    ("autolink", "<http://a.b/c> <me@x.y>\n", ALL),
    ("emphasis", "*a b* **c d** ***e*** _f_ __g h__\n", ALL),
]

# (text, widths): not stable under the formatter, so they must be refused
UNSTABLE = [
    ("_\n __", [2, 7, 88]),
    (" $\n- - -\n", [2, 10, 88]),
    ("**\n*\n\n\n", [10, 88]),
    ("-- - x", [2]),
    ("__\n_\n\n", [7, 88]),
]

# texts on which formatting once raised something undocumented, or never ended
RAISED = [
    "", "\n", "\n\n\n", ".", ".x", ". . .", "...", "`", "``", "```", "~~~", "```\n", "~~~ x", "[", "[a", "[a]", "[a]:", "[a]:\n", "[a]: ", "[a]: x", "[a]: x '", "[a]: x 'y",
    "[a]: x \"y\nz", "[a](", "![", "![]", "]", "](", "a\\", "a  ", "a\\\n", "\\", "|", "||", "|a", "|a|\n", "|a|\n|-", "-", "- ", "*", "+ ", "1.", "1. ", "0.", ">", "> ", ">>", ">\n>",
    "#", "# ", "#######", "=", "==", "---", "a\n=", "a\n-", "a\n---\n", "\x0b>#", "\n\xa0>>", "a\x0c> \n(", "\x1c>", "\u2028>", "\r", "\r\r", "\r\n", "\t", "\tx", "- \tx", "\x00", "\ufeff# a", "<", "<br",
    "<br>", "<br>\n", "a <br>", "&", "&#", "`a", "a`", "``a`", "[a]b", "[][]", "[]()", "[a][", "[[[[", "]]]]", "((((", "[a](b)(c)[d][e]", "- -", "- - -", "* - -", "- - - -", "1. 1. 1.", "> - > -", "- \n- ",
    "> a\n- - -\n", "a\n***\n", "* a\n***\n", "\\`", "`\\`", "``\\``", "a\n    b\n", "    a", "     \n    a\n", "1234567890. a", "1) a\n2) b\n", "a|b\n-|-\n", "[a]: <b c>", "[a]: <>", "[a]: /u (t)",
    "'> " * 3, "> " * 30 + "x", "- " * 30 + "x", "1. " * 30 + "x", "> - " * 15 + "x\ny", "> " * 24 + "x\ny", "*" * 300, "_" * 300, "`" * 300, "[" * 300, "(" * 300, "<" * 300, "\\" * 301, "#" * 300, "=" * 300,
    "1" * 5000 + ". x\n", "a " * 500, "*a " * 200, "`a " * 201, "[a](" * 100, "![" * 100, "x" * 5000,
]

# well-formed documents that were refused
REFUSED = [
    ("Some text\n\n* * *\n\nmore\n", ALL),
    ("1. a\n   ```\n   b\n   ```\n2. c\n", ALL),
    ("# a\n\n> b\n> c\nd\n", ALL),
    ("- a\n  - b\n\n    c\n", ALL),
    ("a - b - c - d\n", ALL),
    ("a\\\nb\n", ALL),
    ("|a| |\n|---|:-:|\n|b| |\n", ALL),
    ("> - a\nb\n", ALL),
    (".net is a word that starts a paragraph\n", ALL),
    ("[label]: /dest 'a title that is too long to fit' \n", ALL),
]

# (text, widths): the words must come out as they are
INLINE = [
    ("[a](/b) [c](/d) [e](/f)", ALL),
    ("x `a b` y", ALL),
    ("one \\`two `three four` five", [88]),
    ("a \\<br> b", ALL),
    ("`code`s (`code`) *`code`* \"`code`\",", ALL),
    ("see [x](/y). And [z](/w), too", ALL),
    ("`a`\t`b`\tc\t[d](/e)\tf", ALL),
    ("`a`\u00a0`b`\u00a0: [d](/e)\u00a0; «\u00a0`f`\u00a0» g \u00a0 h\u2003i", ALL),
]

# --------------------------------------------------------------------- known findings
KNOWN_HTML = {
    "fence-in-item": ("- a\n```\ncode\n```\n", 88),
    "tab-marker": ("-\ta\n\n\tb\n", 88),
    "br-start": ("<br> a b\n", 88),
    "tight-quote-list": (">1. a\n>\n>    b\n", 88),
    "text-after-item-without-paragraph": ("-\nfoo\n", 88),
    "indented-fence": ("  ```\n  code\n  ```\n", 88),
    "nested-fence-indents": ("- a\n  - b\n\n      ~~~\n    ~~~\n- c\n", 88),
    "angle-destination": ("[`a`](<b c>)\n", 1),
    "angle-definition": ("[a]: <b c>\ntext\n", 88),
    "paren-list": ("1) a\n2) b\n", 88),
    "no-break-space-line": ("a\n\u00a0\nb\n", 88),
    "raw-html-block": ("<!-- a\n   b -->\ntext\n", 88),
}
KNOWN_REFUSED = {
    "spaced-dashes-after-paragraph": ("a\n- - -\n", 88),
    "paragraph-of-rule-characters": ("_\n__\n", 88),
    "very-deep-nesting": ("> " * 400 + "x\n", 88),
}
KNOWN_INLINE = {
    "text-glued-to-second-link": ("[a](u) abc[b](u)", 88),
    "brackets-not-a-link": ("x[i][jjjjjjjjjjjjjjjjjj] y", 10),
    "br-glued-to-link": ("[a](u)<br />b", 3),
}
