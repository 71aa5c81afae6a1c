p("C01", "Reformatting never changes what the document renders to",
  "For every document built from the Markdown section types the README documents (headings, paragraphs with emphasis, code spans, links, images and hard breaks, fenced and indented code, block quotes, bullet and ordered lists, link reference definitions, thematic breaks, nested in one another) and every line length, the output renders under a CommonMark parser to the same HTML as the input. Only whitespace that HTML ignores, trailing whitespace inside code, and the README's announced corrections (item renumbering after the first, unified bullets, a missing space after '#', an explicit heading right after a block quote) may differ.",
  ["inputs", "configurations"], "every document of the documented section types, arbitrarily nested and adjacent, times every line length from 1 to infinity",
  "Rendering is compared on 23 fixed files and a dozen snippets, at width 88 or one fixed width; combinations of nesting, adjacency and wrapping points are unbounded.",
  [FMT, "markflow/parser.py", D + "_lines.py", TW, F + "lists.py", F + "block_quote.py"],
  mech=[("section detection follows CommonMark", D), ("section formatters keep structure", F), ("second formatting pass compared with the first", FMT)],
  observe=[API, "HTML of input and output from two independent CommonMark implementations"])

p("C02", "Returned text is a fixed point of the formatter",
  "Whatever text is passed in, whenever formatting returns a result, formatting that result again at the same line length returns exactly the same text. A text for which the formatter cannot reach a stable result is refused with ReformatInconsistentException instead of being returned.",
  ["inputs", "configurations"], "every input text, well-formed or not, times every line length",
  "Tests re-format 23 outputs at one width; stability has to hold for every text, in particular those whose first pass is not stable and where only the built-in double check stands between the user and a flip-flopping file.",
  [FMT, "IMPLEMENTATION.md"], mech=[("second pass comparison", FMT + ":reformat_markdown_text")], observe=[API, "exception type"])

p("C03", "Every text is formatted or refused with a documented error",
  "For every text and every line length, formatting terminates with either a string or one of the two documented errors (MarkdownFormatException for a malformed table, ReformatInconsistentException for an unstable result), never with any other exception (nesting hundreds of levels deep may exceed the interpreter's recursion limit). A document that is well-formed in the documented section types and nested less than a hundred levels deep is never refused.",
  ["inputs", "configurations"], "every Unicode text, including truncated constructs, odd delimiters and unusual line separators, times every line length",
  "Tests only feed complete, well-formed constructs; unterminated fences, lone delimiters, dot-initial words and end-of-file truncation are an open-ended set.",
  [FMT, D + "fenced_code_block.py", D + "link_reference_definition.py", F + "table.py", TW],
  mech=[("each detector and formatter handles truncated constructs", D), ("documented exception types", "markflow/exceptions.py")], observe=["outcome of markflow.reformat_markdown_text"])

p("C04", "No text is lost, invented, duplicated or reordered",
  "For every text for which formatting returns a result, the sequence of letters in the result is exactly the sequence of letters in the input. In documents of the documented section types the digits and punctuation of the content (everything but list numbers, list bullets, quote markers, heading underlines, break rules and table padding) are conserved in the same way.",
  ["inputs", "configurations"], "every input text times every line length",
  "A conservation law over all inputs; the tests compare a fixed list of outputs, none of which exercises an unclosed fence, a row without an outer pipe or a title that moves to its own line.",
  [FMT, D, F, TW], mech=[("detectors partition the lines, formatters re-emit all content", "markflow/parser.py")], observe=[API])

p("C05", "Code block content is preserved verbatim",
  "Every line inside a fenced or indented code block comes out exactly as it went in, apart from trailing whitespace and the indentation of the enclosing list item or quote: never wrapped, renumbered, re-bulleted, joined or reinterpreted, whatever it looks like. The fence character and length, the info string and the extent of the block are kept (a line holding only the fence closes the block however far it is indented), and a block left open at the end of the document is closed without losing a line.",
  ["inputs", "configurations"], "every code content (including text that looks like headings, lists, tables, quotes, links and other fences, blank lines, long lines) in every fence style, at top level and nested in lists and quotes, times every line length",
  "Tests contain six code blocks; which content lines collide with a detector is unbounded.",
  [D + "fenced_code_block.py", D + "indented_code_block.py", F + "fenced_code_block.py", F + "indented_code_block.py", F + "lists.py"],
  mech=[("fence tracking", D + "fenced_code_block.py:split_fenced_code_block"), ("fence tracking inside lists", F + "lists.py:_split_list")], observe=[API])

p("C06", "Inline code, links and adjoining text survive wrapping intact",
  "In paragraphs and headings an inline code span always ends up on a single line with its content unchanged, a link or image destination or reference label is never split, and the space between two adjacent pieces of inline text (words, code spans, links, images, punctuation, HTML line breaks) is neither added nor removed. A backslash-escaped delimiter is ordinary text.",
  ["inputs", "configurations"], "every sequence of inline pieces, glued or spaced, times every line length",
  "test_utils fixes a handful of token sequences at one width; the wrapping point can fall between any two pieces.",
  [TW, F + "paragraph.py", F + "setext_heading.py"], mech=[("code_split / link_split / newline_split / space_split / join", TW)], observe=[API])

p("C07", "Prose is filled to the line length, at every nesting level",
  "Every output line of a paragraph, list item, block quote or underlined heading, including its indentation and quote markers, is at most the requested line length unless it consists of a single unbreakable piece, and no line ends earlier than it must: the next piece would not have fit (lines are only ended early by a hard break or an HTML line break, and a piece that would start another kind of block at the start of a line stays with the piece before it). With an infinite line length each paragraph is a single line.",
  ["inputs", "configurations"], "every prose content, nesting of lists and quotes, and line length",
  "Tests wrap at 88, 50, 35, 30 and 12 columns on short fixed texts; the bound is about every text, every width and every accumulated indent.",
  [TW, F + "lists.py", F + "block_quote.py", F + "setext_heading.py"], mech=[("greedy join", TW + ":join"), ("sub-width computation", F + "block_quote.py, " + F + "lists.py")], observe=["lines of " + API])

p("C08", "Output whitespace is normalised whatever the input's line endings",
  "The output ends with exactly one newline, uses only '\\n' as line ending, and no line has trailing whitespace except exactly two spaces where the input has a hard line break's spaces (at the end of the document, where nothing follows to break from, there are none). The result is the same whether the input's line endings are '\\n', '\\r\\n' or '\\r', and whether or not the last line is terminated.",
  ["inputs", "configurations"], "every text in every line-ending style, with arbitrary trailing blanks and blank lines, times every line length",
  "The test files all use '\\n' and a few trailing blanks; the rule is stated for all sections.",
  [FMT, F + "blank_line.py", F + "atx_heading.py", F + "block_quote.py"], mech=[("per-section stripping", F), ("final strip", FMT)], observe=[API])

p("C09", "Ordered lists are renumbered consecutively from their first number",
  "An ordered list of n items whose first number is s is output as n items numbered s, s+1, ..., s+n-1 in the original item order, whatever numbers the input carried (numbers of up to nine digits). Each item keeps its own content, and every continuation line and nested block is indented by the width of the item's own marker.",
  ["inputs", "configurations"], "every start number, item count (across powers of ten), input numbering, nesting and item content",
  "Tests use lists of at most ten items starting at 0, 1, 2 or 10 with short content.",
  [F + "lists.py", D + "ordered_list.py"], mech=[("enumerate from first_number", F + "lists.py:MarkdownOrderedList")], observe=[API])

p("C10", "Bullet lists keep their items and nesting and use one bullet",
  "A bullet list is output with one item per input item, in the same order and at the same nesting depth, all using the bullet of the list's first item; an ordered item at the same level starts a separate list. Continuation lines and nested blocks are indented two columns per level.",
  ["inputs", "configurations"], "every tree of nested bullet and ordered lists, every mix of bullets and of source indentation",
  "Tests cover three levels and a fixed set of indentations.",
  [F + "lists.py", D + "bullet_list.py"], mech=[("_split_list / _dedent_entries", F + "lists.py")], observe=[API])

p("C11", "Tables keep every cell and come out rectangular and aligned",
  "Every well-formed table keeps all its header and body cells, stripped of padding, in the same rows and columns, with each column's alignment markers. All its output rows have equal length with each column exactly as wide as its widest cell (at least what its divider needs) plus one space on each side, cells padded left, right or centred as the column says (headers centred when unaligned); the line length never affects a table.",
  ["inputs", "configurations"], "every column count, row count, alignment, cell content (including escaped pipes, empty cells, missing outer closing pipe, wide text) and source padding",
  "Three tables are tested.",
  [F + "table.py", D + "table.py"], mech=[("column widths and alignment", F + "table.py:MarkdownTable.reformatted")], observe=[API])

p("C12", "Malformed tables are refused with the right line, never mangled",
  "A table whose rows do not all have the header's number of columns, or that has no valid divider row, is refused with MarkdownFormatException rather than formatted with cells dropped. For a row with the wrong number of columns (the first one, if there are several) the message gives that row's line number in the document and the expected and actual counts.",
  ["inputs", "configurations"], "every malformed table, at every position in a document",
  "No test exercises a malformed table.",
  [F + "table.py", "markflow/exceptions.py"], mech=[("column count check", F + "table.py")], observe=["MarkdownFormatException message"])

p("C13", "Headings keep level and text in canonical form",
  "An ATX heading is output as its run of '#'s, one space and its text on a single line of any length; an underlined heading keeps its underline character and its text, wrapped to the line length, with the underline exactly as long as its longest text line. The heading level and text never change.",
  ["inputs", "configurations"], "every heading text, level, indentation, underline length and line length, at top level and nested",
  "Five heading snippets are tested.",
  [F + "atx_heading.py", F + "setext_heading.py", D + "setext_heading.py"], mech=[("heading formatters", F)], observe=[API])

p("C14", "Block quotes keep depth and content, with every line marked",
  "Every line of a block quote in the output carries exactly as many quote markers as its depth in the input, lazy continuation lines gain the markers they lacked, and the content inside is formatted exactly as it would be on its own at the line length left by the markers. Marker spacing is uniform within one level and text after the quote is not pulled into it.",
  ["inputs", "configurations"], "every nesting of quotes, lists and other blocks, spacing style, laziness and line length",
  "One unit snippet and one file are tested.",
  [F + "block_quote.py", D + "block_quote.py"], mech=[("strip markers, format, re-prefix", F + "block_quote.py")], observe=[API])

p("C15", "Link reference definitions keep label, destination, title and layout",
  "A link reference definition is output with its label, destination and title (in single or double quotes or in parentheses) unchanged; the destination stays on the line (label line or its own line) the author chose, even if too long, and a title stays on its line unless it would overflow, in which case it moves to the next line and is wrapped. Text that follows a definition is never absorbed into it.",
  ["inputs", "configurations"], "every label, destination, quoted title (escapes, multiple lines), the four layouts, what follows, and every line length",
  "One snippet and two files at width 88.",
  [F + "link_reference_definition.py", D + "link_reference_definition.py"], mech=[("split_link_reference_definition", D + "link_reference_definition.py")], observe=[API])

p("C16", "Thematic breaks are normalised to the line length",
  "Every thematic break (three or more of one of '-', '_', '*', with any spacing between them and up to three spaces of indent) is output as that character repeated to fill the line length available at its nesting level, never fewer than three, or as exactly three when the line length is infinite. It never turns into another kind of block and no other line becomes a thematic break.",
  ["inputs", "configurations"], "every spelling, context and line length",
  "Three solid '-' rules at width 50 and a file of adjacent ones; spaced rules such as '* * *' and narrow widths are untested.",
  [F + "thematic_break.py", D + "thematic_break.py", D + "_lines.py"], mech=[("is_thematic_break_line", D + "_lines.py")], observe=[API])

p("C17", "Formatting is local: independent blocks do not influence each other",
  "Formatting a document made of self-contained blocks, separated by blank lines or by nothing where Markdown lets one block interrupt the other, gives exactly the separately formatted blocks joined by the same number of blank lines, in the same order. No block's formatting depends on what precedes or follows it.",
  ["inputs", "configurations"], "every sequence of self-contained blocks, with any number of blank lines between them, times every line length",
  "Tests format each construct in isolation or in one fixed file; the number of block sequences is unbounded.",
  ["markflow/parser.py", FMT, F + "blank_line.py"], mech=[("parse_markdown's section loop", "markflow/parser.py")], observe=[API])

p("C18", "Formatting is a pure function, also after failures and across threads",
  "The result (value or error) for a text and line length depends on nothing else: not on texts formatted before, on earlier failures, on concurrent formatting in other threads, or on logging configuration; nor do the messages it logs above the debug level depend on what was formatted before. When no call is in progress the process-wide logging state is exactly what the application configured.",
  ["histories", "schedules", "fault_sequences"], "every sequence of successful and failing calls and every thread interleaving of concurrent calls",
  "Every test makes isolated single-threaded calls and never looks at process state.",
  [FMT, "markflow/_utils/_utils.py", D + "block_quote.py", D + "fenced_code_block.py"], mech=[("redirect_info_logs_to_debug", "markflow/_utils/_utils.py"), ("logger level save/restore", FMT)], observe=[API, "logging module state"])

p("C19", "--check never writes and its verdict is truthful",
  "With --check no file is created, modified or deleted, whatever other options are given (short of the developer option that asks for renderings), write-protected files are checked like others, and the exit status is 1 if and only if an in-place run without --check would change the text of at least one of the files (or formatting would change standard input), else 0. The files reported as needing reformatting, and the counts, are exactly those files.",
  ["inputs", "configurations", "histories"], "every set of files, mix of formatted and unformatted content (including line endings), option combination and order",
  "The command line has no tests at all.",
  ["markflow/__main__.py"], mech=[("_reformat_files / _reformat_stdin", "markflow/__main__.py")], observe=["exit status, stdout, file system before/after"])

p("C20", "The command line writes exactly the formatted text where told to",
  "After a successful run each named file (or, with --output-dir or --output-file, the corresponding output file) contains exactly the library's formatting of the input content, and no other file is created or changed; inputs are untouched when an output location is given, and a file whose content is already formatted is not rewritten in place. Permissions stay, and a symbolic link stays one: the file it leads to is written. Running the command again changes nothing.",
  ["inputs", "configurations", "histories"], "every set of input files and contents, output option, line length and repetition",
  "The command line has no tests at all.",
  ["markflow/__main__.py", "markflow/_argparse.py"], mech=[("_reformat_files", "markflow/__main__.py")], observe=["file system before/after, write events"])

p("C21", "A file that cannot be formatted is left untouched and reported",
  "When formatting a file fails, that file and the files after it keep their content, files before it are completely written, no output is produced for it, the exit status is non-zero, and the error names the file (unless error messages are silenced by -q). A run rejected because of its arguments (missing or unreadable path, unwritable destination, wrong number of output files, conflicting options) changes nothing at all. An output that cannot be written (no space left) ends the run with a non-zero status too, with the files before it completely written and no other file half written.",
  ["inputs", "fault_sequences", "histories"], "every position of a failing file in every argument list, each kind of failure (malformed table, unstable text, text that is not UTF-8, bad arguments)",
  "The command line has no tests at all.",
  ["markflow/__main__.py", "markflow/_argparse.py", "markflow/exceptions.py"], mech=[("exception annotation", "markflow/__main__.py:_reformat_files"), ("argument validation", "markflow/_argparse.py")], observe=["exit status, stderr/stdout, file system before/after"])

p("C22", "A directory argument means exactly the Markdown files beneath it",
  "Naming a directory processes every regular file ending in .md anywhere beneath it exactly once, and nothing else, neither other files nor standard input (names that start with a period are skipped), whatever the directory and file names are; a file named explicitly is processed whatever its extension. Sub-directories are searched to any depth.",
  ["inputs", "configurations"], "every directory tree, including names with spaces, glob metacharacters, non-Markdown siblings and directories that look like files",
  "The command line has no tests at all.",
  ["markflow/_argparse.py"], mech=[("AddMarkdownFilesInDirOrPathsAction", "markflow/_argparse.py")], observe=["set of files changed and reported"])

p("C23", "As a filter, stdout carries the formatted text and nothing else",
  "With no path and piped input, standard output is exactly the library's formatting of standard input at the requested line length, byte for byte, with exit status 0, whatever verbosity flags are given. With no path and a terminal for standard input nothing is done. A line length below 1 means infinite, the default is 88, and verbosity flags never change any result.",
  ["inputs", "configurations"], "every text, line length and combination of verbosity flags",
  "The command line has no tests at all.",
  ["markflow/__main__.py"], mech=[("_reformat_stdin, logging set-up", "markflow/__main__.py")], observe=["stdout bytes, exit status"])

p("C24", "Output does not depend on insignificant source layout",
  "Two documents that differ only in insignificant layout (where paragraphs are wrapped, runs of spaces between words, up to three spaces of indent, list numbers after the first, list source indentation, table padding, underline and rule lengths, trailing blanks, marker spacing in fences) are formatted to the same text. Re-wrapping at another line length first makes no difference either: formatting at w1 and then at w2 equals formatting at w2.",
  ["inputs", "configurations", "histories"], "every pair of layouts of the same document and every pair of line lengths",
  "Tests compare single outputs; that all layouts of one document meet in one normal form is a relation over pairs of inputs.",
  [FMT, F, TW], mech=[("formatters rebuild sections from their content", F)], observe=[API])

p("C25", "Formatting cost stays bounded on large and adversarial texts",
  "The work done to format a text grows polynomially with modest degree in its length: doubling the length of a document made by repeating or nesting any construct multiplies the number of executed steps by at most a fixed small factor. No short text makes the formatter hang.",
  ["inputs"], "every family of growing documents: repeated paragraphs, list items, quote lines, nested quotes and lists, delimiter runs",
  "All test inputs are below 4 kB and flat; growth rates are about unbounded sizes.",
  ["markflow/parser.py", D + "block_quote.py", D + "paragraph.py", TW], mech=[("section loop and continuation look-ahead", D)], observe=["executed line events counted by a tracing hook (logical steps, not wall clock)"])

p("C26", "Diagnostics name the source lines they are about",
  "Every warning names, once, the line of the given document it is about, wherever that line is nested: headings without a space behind their '#'s, closing fences indented too far, definitions without a destination, headings right behind a block quote. At the informational level the sections found are logged once, in order, as 'Line a: ...' or 'Lines a-b: ...' with their kind; together they cover every line exactly once and each top-level block is covered by sections of its kind. The second pass, which only checks stability, logs none of this. The command shows warnings on standard error from one -v, sections from two (net of -q), and neither below.",
  ["inputs", "configurations"], "every document, nesting of the oddities and verbosity",
  "No test looks at what is logged.",
  [FMT, F + "atx_heading.py", F + "fenced_code_block.py", F + "link_reference_definition.py", F + "lists.py", F + "block_quote.py", "markflow/__main__.py"], mech=[("line_index passed down to nested formatters", F), ("_filter_second_pass", FMT)], observe=["records of the markflow loggers", "stderr"])

p("C27", "--write-renders shows both renderings of an unstable text, nothing else",
  "With --write-renders, when a file's formatted text formats differently the next time, the run fails as without the option and leaves, next to that file's output path, both renderings: <name>.1.md holding the formatted text and <name>.2.md holding that text formatted again (<name>.1 and <name>.2 when the output name does not end in .md), both at the chosen line length and replacing older ones. The output file itself and every later file stay untouched, files before it are written as usual, and runs without an unstable text behave as without the option. Unstable standard input gets both renderings on standard output.",
  ["inputs", "configurations"], "every unstable text among stable ones, output mode, file name and line length",
  "No test passes --write-renders.",
  ["markflow/__main__.py"], mech=[("_write_renders / _print_renders", "markflow/__main__.py")], observe=["files left by the command compared with the tree before", "standard output, exit status"])

p("C28", "The command works wherever it is installed, and questions about it only inform",
  "Run from a source checkout or from an installation among any other packages, as a module or through its entry point, the command formats files and standard input exactly as the library does. --version states the version that the checkout's project file gives (marked as development) or that the installation's metadata gives, whatever else is in those places. When it is asked for its version, its help or the developer help, it prints that on standard output (the help naming the options there are, the developer help the developer options as well), with exit status 0 for version and help, and changes no file whatever other options and paths are given.",
  ["configurations", "inputs"], "every layout of an installation, version, and combination of the information options with others",
  "The tests run from one checkout, and none asks for the version or for help.",
  ["markflow/__main__.py"], mech=[("get_version", "markflow/__main__.py"), ("parse_args", "markflow/__main__.py")], observe=["standard output and exit status of real processes", "tree before and after"])
