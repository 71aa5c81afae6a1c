"""Short texts on which a backtracking matcher with an ambiguous pattern would not end: head + unit * n + tail, where the tail is a near miss."""
import math

UNITS = ["-", "- ", "--", "=", "= ", "*", "* ", "**", "_", "_ ", "+", "+ ", "#", "# ", "`", "``", "` ", "~", "~ ", ">", "> ", "\\", "\\\\", "\\ ", "\\*",
         " ", "  ", "\t", "\t ", " \t", "a", "a ", "ab ", "aaaaaaaa ", "1", "12 ", "1.", "1. ", "1) ", ":", ": ", ":-", "|", "| ", "|-", "|a", "|:-:", "\\|",
         "[", "[a", "[a ", "[a]", "[a] ", "[a][", "[a](", "[a](b) ", "[a][b]", "![", "![a](", "]", "] ", "](", "][", "(", "(a", "(a ", ")", ") ", ")(",
         "<", "<a", "<a ", "<br>", "<br/", "<br />", "<!--", ">a", "\"", "\" ", "'", "' ", "a'", "\"a ", "/", "/a", ".", "a.", "&", "&amp;", "!", "\u00a0", "\u2003", "é ", "e\u0301",
         "\n", " \n", "a\n", "-\n", ">\n", "> a\n", "- a\n", "  a\n", "    a\n", "|a|\n", "\\\n", "a  \n", "a\\\n", "`\n", "[\n", "\"\n", "'a\n", "1. \n", "#\n", "=\n", "```\n", "~~~\n", "\t\n", "\r", "\x0b", "\x0c "]
HEADS = ["", "x", "x ", "> ", "- ", "1. ", "# ", "|", "|a|\n|", "|a|\n|-", "|a|\n|:", "|a|\n|-|\n|", "[", "[a", "![", "[a](", "[a](b ", "[a][", "[a]: ", "[a]: /u ",
         "[a]: /u \"", "[a]: /u '", "[a]: /u (", "[a]: <", "[a]:\n", "[a]: /u\n\"", "`", "``", "```", "~~~", "*", "**", "_", "\\", "<", "<br", "<!--", "a\n", "a\n ", "a\n-", "a\n=",
         "> a\n", "> - ", "- a\n", "- a\n ", "- a\n\n", "1. a\n", "    ", "   ", " ", "\t", "(", "\"", "'", "http://", "#", "1", "1."]
TAILS = ["", "x", "\\", "]", "] x", ")", ") x", "](", "](b", "](b)", "][", "][b]", "]:", "]: /u", "\"", "\" x", "'", "' x", "`", "` x", "|", "x|", "| x", ":", ">", "> x", "-", "*", "* x", "_", "=", "#", "# x", "+",
         ".", ". x", "1", "<", "/>", " ", "  ", "\t", "\nx", "\n\nx", "\n-", "\n=", "\n- a", "\n> a", "\n|-|", "\n```", "\n\\", "!", "é"]
WIDTHS = (88, 1, math.inf)


def texts(unit, n, width):
    for head in HEADS:
        for tail in TAILS:
            yield head + unit * n + tail + "\n", width
