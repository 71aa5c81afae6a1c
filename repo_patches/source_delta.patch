From 7b4a1aa5de2dc3c882fb4567a7b4f6560ab18028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 01/59] fix: do not crash on text that begins with a single
 period

Both splitters attach a leading period to the piece before it, but when the
remaining text is the whole text there is none, and formatting '.gitignore is
a file' ended in an IndexError.
---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..0b5b55a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -89,7 +89,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -176,7 +176,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From 87eeaee23de821380205569733018ad76612108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 02/59] fix: keep label and destination when a title moves to
 its own line

A title that did not fit beside its link reference definition replaced the
definition instead of being put on the line after it.
---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..2281005 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = str_.splitlines()
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From d28f0744ab6c41d447b193cee88640a6a5dbb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 03/59] fix: find the end of link reference definitions

A definition whose destination is on the last line of the text crashed
(StopIteration) or was taken for a paragraph; a following line starting with a
quote that was never closed as a title made the definition swallow the lines
after it, across blank lines; and an indented title was not recognised. Track
the number of lines known to belong to the definition instead of the position
of the look-ahead.
---
 .../detectors/link_reference_definition.py    | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..f1c8878 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -72,13 +72,14 @@ def split_link_reference_definition(
     rest_of_line = rest_of_line[match.end() :]
     url_and_title = rest_of_line.split(maxsplit=1)
     # At the end of this, index is set to the line with the beginning of the title_text
-    # contains that first text. Is complete gets set from this loop when we know that
-    # we have a valid title. In this first loop, we only set it when we know the lines
-    # with the label and URL can stand on their own.
+    # contains that first text. End index is the number of lines that make up the
+    # definition as far as we know, 0 until we know there is one. Up to the loop below,
+    # we only set it when we know the lines with the label and URL can stand on their
+    # own. The loop sets it when we know that we have a valid title.
     # The later loops checks to ensure our closing quotation is the last non-whitespace
     # character on whatever line it ends on and the first occurence of that character,
     # unescaped.
-    is_complete = False
+    end_index = 0
     if len(url_and_title) == 2:
         # The label, URL, and possible title (or part of it) are on this line
         title_text = url_and_title[1]
@@ -86,10 +87,10 @@ def split_link_reference_definition(
         # Only the label and URL are on the first line
         try:
             index, line = next(indexed_line_generator)
-            title_text = line
+            title_text = line.lstrip()
         except StopIteration:
             title_text = ""
-        is_complete = True
+        end_index = 1
     else:
         # Just the label was on the first line
         try:
@@ -110,9 +111,12 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
-            is_complete = True
-            title_text = line
+            try:
+                index, line = next(indexed_line_generator)
+                title_text = line.lstrip()
+            except StopIteration:
+                title_text = ""
+            end_index = 2
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
@@ -127,15 +131,17 @@ def split_link_reference_definition(
         for index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
+            if not lines[index].strip():
+                # Titles cannot contain blank lines
+                break
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
-                    is_complete = True
-                    index += 1
+                    end_index = index + 1
                 break
 
-    if is_complete:
-        link_reference_definition = lines[:index]
-        remaining_lines = lines[index:]
+    if end_index:
+        link_reference_definition = lines[:end_index]
+        remaining_lines = lines[end_index:]
 
     return link_reference_definition, remaining_lines
-- 
2.43.0


From e5ee255f2a0f06afea8f97ca0669454a7d4bf678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 04/59] fix: do not take inline code for the start of a fenced
 code block

A line that begins with inline code between three or more backticks was read
as an opening fence (the info string of a backtick fence cannot contain
backticks), which swallowed the rest of the document.
---
 markflow/detectors/_lines.py            |  4 +++-
 markflow/detectors/fenced_code_block.py | 14 +++++++-------
 markflow/formatters/lists.py            |  4 ++--
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..a646afd 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -102,7 +102,9 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     """
     for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         if line.strip().startswith(fence * 3):
-            return True
+            # The info string after backticks cannot contain any, otherwise this is
+            # inline code.
+            return fence != "`" or "`" not in line.strip().lstrip("`")
     return False
 
 
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 8fa2066..7e54f9b 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,6 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
+from ._lines import is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
 
@@ -115,15 +116,14 @@ def split_fenced_code_block(
     indexed_line_generator = enumerate(lines)
 
     index, line = next(indexed_line_generator)
-    for fence in FENCES:
-        if line.strip().startswith(fence * 3):
-            count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
-            fence_indent = get_indent(line)
-            full_fence = fence * count
-            break
-    else:
+    if not is_fenced_code_block_start_line(line):
         return fenced_code_block, remaining_lines
 
+    fence = line.lstrip()[0]
+    count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
+    fence_indent = get_indent(line)
+    full_fence = fence * count
+
     fenced_code_block.append(line)
 
     for index, line in indexed_line_generator:
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index edfb4c4..9ebaf8e 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,6 +8,7 @@ import string
 from typing import List
 
 from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from ..detectors._lines import is_fenced_code_block_start_line
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -21,7 +22,6 @@ MARKER_REGEX = re.compile(
     r")"
     r"($| )"  # End of line or space
 )
-CODE_BLOCK_FENCES = "`~"
 REPR_CONTENT_LEN = 20
 
 
@@ -64,7 +64,7 @@ def _split_list(lines: List[str]) -> List[List[str]]:
     list_entries: List[List[str]] = []
     max_indent = _list_marker_end_pos(lines[0])
     for line in lines:
-        if any(line.lstrip().startswith(f * 3) for f in CODE_BLOCK_FENCES):
+        if is_fenced_code_block_start_line(line):
             code_block_symbol = line.lstrip()[0]
             code_block_marker_length = len(line.lstrip()) - len(
                 line.lstrip(code_block_symbol)
-- 
2.43.0


From e1be7da2888638ad0b1208d7d64c40748d5bd595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 05/59] fix: keep the last line of an unclosed fenced code
 block

The last line of the section was always assumed to be the closing fence, so a
block left open until the end of the text lost its last line of code, and a lone
opening fence was a crash.
---
 markflow/formatters/fenced_code_block.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..7053358 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -32,7 +32,7 @@ before or after.
 https://spec.commonmark.org/0.29/#fenced-code-blocks
 """
 
-from typing import Optional
+from typing import List, Optional
 
 from .._utils import truncate_str
 from ..typing import Number
@@ -54,12 +54,21 @@ class MarkdownFencedCodeBlock(MarkdownSection):
             self.lines[0].strip().lstrip(self.fence_char)
         )
 
+    @property
+    def code_lines(self) -> List[str]:
+        fence = self.fence_char * self.fence_count
+        if len(self.lines) > 1 and self.lines[-1].strip() == fence:
+            return self.lines[1:-1]
+        else:
+            # The code block was never closed.
+            return self.lines[1:]
+
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        if not self.code_lines:
             return None
         else:
-            return self.lines[1].strip()
+            return self.code_lines[0].strip()
 
     @property
     def language(self) -> str:
@@ -70,7 +79,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        new_lines = [fence + self.language] + self.code_lines + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From eeb9ce349a5b944c043688836a117e5c35c9a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 06/59] fix: recognise every closing code fence

A closing fence may be longer than the opening one, and a line inside a list's
code block only closes it if it has nothing but the fence on it; either mistake
let the code run on into the following text or the reverse. The fence length in
lists also counted the indentation.
---
 markflow/detectors/_lines.py             | 15 +++++++++++++++
 markflow/detectors/fenced_code_block.py  |  4 ++--
 markflow/formatters/fenced_code_block.py |  3 ++-
 markflow/formatters/lists.py             | 21 +++++++++++----------
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index a646afd..d44404c 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -108,6 +108,21 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     return False
 
 
+def is_fenced_code_block_end_line(line: str, fence: str) -> bool:
+    """Evaluates whether a line closes a fenced code block opened with a given fence
+
+    The closing fence has to be at least as long as the opening fence.
+
+    Args:
+        line: The line to evaluate
+        fence: The fence that opened the code block
+
+    Returns:
+        True if the line closes the code block. False otherwise.
+    """
+    return line.strip().startswith(fence) and not line.strip().strip(fence[0])
+
+
 def is_indented_code_block_start_line(line: str) -> bool:
     """Evaluates whether a line could start and indented code block
 
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 7e54f9b..df068a5 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,7 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
-from ._lines import is_fenced_code_block_start_line
+from ._lines import is_fenced_code_block_end_line, is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
 
@@ -128,7 +128,7 @@ def split_fenced_code_block(
 
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
-        if line.strip() == full_fence:
+        if is_fenced_code_block_end_line(line, full_fence):
             if get_indent(line) > 3 + fence_indent:
                 logger.warning(
                     "Detected that the fence on line %d is over indented per the "
diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 7053358..9dd800f 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -35,6 +35,7 @@ https://spec.commonmark.org/0.29/#fenced-code-blocks
 from typing import List, Optional
 
 from .._utils import truncate_str
+from ..detectors._lines import is_fenced_code_block_end_line
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -57,7 +58,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
     @property
     def code_lines(self) -> List[str]:
         fence = self.fence_char * self.fence_count
-        if len(self.lines) > 1 and self.lines[-1].strip() == fence:
+        if len(self.lines) > 1 and is_fenced_code_block_end_line(self.lines[-1], fence):
             return self.lines[1:-1]
         else:
             # The code block was never closed.
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 9ebaf8e..8871876 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,7 +8,10 @@ import string
 from typing import List
 
 from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
-from ..detectors._lines import is_fenced_code_block_start_line
+from ..detectors._lines import (
+    is_fenced_code_block_end_line,
+    is_fenced_code_block_start_line,
+)
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -59,23 +62,21 @@ def _list_marker_end_pos(line: str) -> int:
 
 def _split_list(lines: List[str]) -> List[List[str]]:
     in_code_block = False
-    code_block_end = ""
+    code_block_marker = ""
 
     list_entries: List[List[str]] = []
     max_indent = _list_marker_end_pos(lines[0])
     for line in lines:
-        if is_fenced_code_block_start_line(line):
+        if in_code_block:
+            if is_fenced_code_block_end_line(line, code_block_marker):
+                in_code_block = False
+        elif is_fenced_code_block_start_line(line):
             code_block_symbol = line.lstrip()[0]
             code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip(code_block_symbol)
+                line.lstrip().lstrip(code_block_symbol)
             )
             code_block_marker = code_block_marker_length * code_block_symbol
-            if in_code_block:
-                if code_block_end == code_block_marker:
-                    in_code_block = False
-            else:
-                in_code_block = True
-                code_block_end = code_block_marker
+            in_code_block = True
 
         if MARKER_REGEX.match(line) and not in_code_block:
             line_indent = get_indent(line)
-- 
2.43.0


From ee166c1e2e844563afc5e99f9f9c2a2975120735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 07/59] fix: read '* * *' and '- - -' as thematic breaks

When a line can be either a thematic break or a list item, the thematic break
takes precedence, but bullet lists were looked for first and did not leave such
lines alone, so spaced breaks were treated as nested empty lists.
---
 markflow/detectors/_lines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index d44404c..d4f37b4 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -175,8 +175,10 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    return (
+        not is_indented_code_block_start_line(line)
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From f814a3256083b5c4a757305014b9a89f73347a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 08/59] fix: never write a thematic break of less than three
 characters

With a line length below three, or little room left by the enclosing lists and
quotes, the break was written too short to be one, or dropped altogether.
---
 markflow/formatters/thematic_break.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..8ce9a47 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,8 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            # Anything shorter is not a thematic break
+            return self.char * max(width, 3)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From cdb0d057db8f8fa7669c91e5409c1c6dceb46308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 09/59] fix: do not let the indentation of a block quote widen
 its lines

The indentation was computed with the wrong sign: it is not reproduced in the
output (and should not be), but was added to the room available for the text, so
lines of an indented quote overflowed and formatting them again gave a different
result.
---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..9f25fa9 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -36,8 +36,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -70,8 +68,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From 468ed0123703fcec2671c23b73b52c8014bcba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 10/59] fix: keep hard line breaks inside block quotes

Stripping the quoted lines removed the two spaces that make a hard break.
---
 markflow/formatters/block_quote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 9f25fa9..9ce7811 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -77,7 +77,9 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in text.splitlines())
+        text = "\n".join(
+            prefix + line if line else prefix.rstrip() for line in text.splitlines()
+        )
 
         return text
 
-- 
2.43.0


From 16ccd04bf26f300145e3658f68b04f7898dbc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 11/59] fix: no trailing space after an empty ATX heading

---
 markflow/formatters/atx_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 5bce961..196d07f 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -64,7 +64,7 @@ class MarkdownATXHeading(MarkdownSection):
                 "corrected.",
                 self.line_index + 1,
             )
-        return "#" * self.depth + " " + self.content
+        return ("#" * self.depth + " " + self.content).rstrip()
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 07e59d1fe0ad8a5a65c897870c966d9de2297366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 12/59] fix: keep escaped pipes in table cells

Body rows were counted and measured with escaped pipes taken into account but
written out split at every pipe, dropping the cells that no longer fit.
---
 markflow/formatters/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..aab8659 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -111,7 +111,9 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                COLUMN_DIVIDER_REGEX.split(line)[1:-1],
+                new_column_widths,
+                column_alignments,
             ):
                 column = column.strip()
                 if alignment == Alignment.CENTER:
-- 
2.43.0


From 9e0a875661040996bd2207273ce99b9cfbb62140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 13/59] fix: keep the last cell of table rows without a closing
 pipe

Whatever follows the last pipe of a row was dropped, including a cell that is
not closed by a pipe.
---
 markflow/formatters/table.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index aab8659..5a55abf 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -35,6 +36,14 @@ def right_align(text: str, width: int) -> str:
     return f"{' ' * padding}{text}"
 
 
+def split_row(line: str) -> List[str]:
+    """Split a row into its columns. The closing pipe is optional."""
+    columns = COLUMN_DIVIDER_REGEX.split(line.strip())[1:]
+    if len(columns) and not columns[-1]:
+        columns = columns[:-1]
+    return columns
+
+
 class MarkdownTable(MarkdownSection):
     def append(self, line: str) -> None:
         self.lines.append(line)
@@ -45,12 +54,12 @@ class MarkdownTable(MarkdownSection):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
+            cols = split_row(line)
             cols = [col.strip() for col in cols]
             column_widths.append(tuple(len(col) for col in cols))
 
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
+        for divider in split_row(self.lines[1]):
             divider = divider.strip()
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
@@ -77,7 +86,7 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = split_row(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
@@ -111,9 +120,7 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                COLUMN_DIVIDER_REGEX.split(line)[1:-1],
-                new_column_widths,
-                column_alignments,
+                split_row(line), new_column_widths, column_alignments
             ):
                 column = column.strip()
                 if alignment == Alignment.CENTER:
-- 
2.43.0


From 7c460a0634222e54167376451d2276b436e0bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 14/59] fix: refuse tables without a proper divider row

The second line of a table was taken for the divider without looking: any other
row in its place was overwritten with dashes, a divider with fewer columns than
the header dropped the remaining cells of every row, and a single line starting
with a pipe was a crash.
---
 markflow/formatters/table.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 5a55abf..e04db7a 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -10,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+DIVIDER_REGEX = re.compile(r"^\s*:?-+:?\s*$")
 
 
 class Alignment(enum.Enum):
@@ -49,6 +50,14 @@ class MarkdownTable(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
+        if len(self.lines) < 2 or not all(
+            DIVIDER_REGEX.match(divider) for divider in split_row(self.lines[1])
+        ):
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 1} starts a table, but is not followed by a "
+                f"divider"
+            )
+
         column_widths = []
         for i, line in enumerate(self.lines):
             if i == 1:
@@ -71,6 +80,11 @@ class MarkdownTable(MarkdownSection):
                 column_alignments.append(Alignment.NONE)
 
         header_column_count = len(column_widths[0])
+        if len(column_alignments) != header_column_count:
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} has unexpected number of columns "
+                f"(expected: {header_column_count}, actual: {len(column_alignments)})"
+            )
         for i, column_width in enumerate(column_widths[1:], start=2):
             if len(column_width) != header_column_count:
                 raise MarkdownFormatException(
-- 
2.43.0


From af8a87ce972ee69c96ed7e6d0f5689033b216ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 15/59] fix: honour escapes when looking for inline code

---
 markflow/_utils/textwrap.py | 71 ++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0b5b55a..7703205 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -1,9 +1,10 @@
 import re
-from typing import List, Tuple
+from typing import Iterator, List, Match, Tuple
 
 from markflow.typing import Number
 
-INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
+ESCAPED_CHARACTER_OR_CODE_MARKER_REGEX = re.compile(r"\\.|`+")
+INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
@@ -30,6 +31,28 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
     return "\n".join(new_split_text)
 
 
+def _inline_code_markers(text: str) -> Iterator[Match[str]]:
+    """Yields the markers that open and close the inline code in text
+
+    A backslash escapes the tilda that follows it, but only outside of inline code.
+    Tildas that have no closing counterpart are just text.
+    """
+    position = 0
+    while True:
+        opening = ESCAPED_CHARACTER_OR_CODE_MARKER_REGEX.search(text, position)
+        if opening is None:
+            return
+        position = opening.end()
+        if opening.group().startswith("\\"):
+            continue
+        for closing in INLINE_CODE_MARKER_REGEX.finditer(text, position):
+            if closing.group() == opening.group():
+                yield opening
+                yield closing
+                position = closing.end()
+                break
+
+
 def code_split(
     text: str, leading_space: bool
 ) -> Tuple[List[str], List[bool], List[bool]]:
@@ -43,7 +66,7 @@ def code_split(
     last_end = 0
     # We jump from tilda mark to tilda mark. The length of the tildas indicate if we are
     # beginning, ending, or still in code.
-    for code_marker in INLINE_CODE_MARKER_REGEX.finditer(text):
+    for code_marker in _inline_code_markers(text):
         if open_marker_len == 0:
             plaintext = text[last_end : code_marker.start()]
             if (
@@ -69,39 +92,29 @@ def code_split(
                 leading_spaces.append(plaintext.endswith(" "))
             evaluates.append(False)
             split_text.append("`" * open_marker_len)
-        elif len(code_marker.group()) == open_marker_len:
+        else:
             # We've found the close of our inline code
             code = text[last_end : code_marker.start()]
             split_text[-1] += code + "`" * open_marker_len
             open_marker_len = 0
-        else:
-            # We've found more inline code
-            split_text[-1] += text[last_end : code_marker.end()]
 
         last_end = code_marker.end()
 
-    # If our last field only has a singular inline code marker, it means that it isn't
-    # inline text and just a standalone tilda or set of tildas, so we can evaluate it.
-    if split_text and len(INLINE_CODE_MARKER_REGEX.findall(split_text[-1])) == 1:
-        evaluates[-1] = True
-        if text[last_end:].strip():
-            split_text[-1] += text[last_end:].rstrip()
-    else:
-        remaining_text = text[last_end:]
-        if (
-            split_text
-            and remaining_text.startswith(".")
-            and not remaining_text.startswith("..")
-        ):
-            split_text[-1] += "."
-            remaining_text = remaining_text[1:]
-        if remaining_text.strip():
-            split_text.append(remaining_text.strip())
-            if last_end == 0:
-                leading_spaces.append(leading_space)
-            else:
-                leading_spaces.append(remaining_text.startswith(" "))
-            evaluates.append(True)
+    remaining_text = text[last_end:]
+    if (
+        split_text
+        and remaining_text.startswith(".")
+        and not remaining_text.startswith("..")
+    ):
+        split_text[-1] += "."
+        remaining_text = remaining_text[1:]
+    if remaining_text.strip():
+        split_text.append(remaining_text.strip())
+        if last_end == 0:
+            leading_spaces.append(leading_space)
+        else:
+            leading_spaces.append(remaining_text.startswith(" "))
+        evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
 
-- 
2.43.0


From aac643fb40a0bd5a1ad7455e4809e9559ed37a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 16/59] fix: keep all text around brackets that look like
 several links

---
 markflow/_utils/textwrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 7703205..d70b9fe 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -150,6 +150,9 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # Both expressions matched, the text is already part of the last link.
+            continue
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
@@ -175,11 +178,11 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().split("](", 1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-            split_link = match.group().split("][")
+            split_link = match.group().split("][", 1)
             split_text.append(split_link[0].strip() + "][")
             split_text.append(split_link[1].strip())
 
-- 
2.43.0


From 0320196017e9363bbbab62aad1178740eb55652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 17/59] fix: keep the space between adjacent links

---
 markflow/_utils/textwrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index d70b9fe..da0e576 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -174,7 +174,11 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(False)
+                # Keep the space between adjacent links. Text directly in front of a
+                # link is joined with the link before it.
+                leading_spaces.append(
+                    bool(non_link_text) and not match.group()[0].isalnum()
+                )
 
         leading_spaces.append(False)
         if "](" in match.group():
-- 
2.43.0


From f93200ed731ff0b7c1ddd638571f341a5adc5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 18/59] fix: only break lines where the text allows it

Text that is not separated by a space was broken apart when it reached the line
length, and a line could begin with text that starts another block.
---
 markflow/_utils/textwrap.py | 56 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index da0e576..ed20882 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -7,11 +7,65 @@ ESCAPED_CHARACTER_OR_CODE_MARKER_REGEX = re.compile(r"\\.|`+")
 INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
+BLOCK_START_REGEX = re.compile(
+    r"[#>|]|"  # Headings, block quotes and tables
+    r"~~~|"  # Fenced code blocks
+    r"(?:\++|-+|\*+|_+|=+|[0-9]+[.)])$"  # Lists, thematic breaks and underlines
+)
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
+def _can_start_line(word: str) -> bool:
+    """Indicates whether a line of a paragraph could start with a word
+
+    It cannot if the line would no longer be part of the paragraph, e.g. if it looked
+    like a heading or the entry of a list.
+    """
+    if word.startswith("```"):
+        # This is only inline code if it is also closed
+        return "`" in word.lstrip("`")
+    return BLOCK_START_REGEX.match(word) is None
+
+
+def _group_unbreakable(
+    split_text: List[str], leading_spaces: List[bool]
+) -> Tuple[List[str], List[bool]]:
+    """Groups all text that has to stay on the same line
+
+    Lines can only be broken where there is a space, in a link or around an HTML
+    newline, and only in front of text that can begin a line.
+    """
+    glued_text: List[str] = []
+    glued_spaces: List[bool] = []
+    previous_word = ""
+    for word, leading_space in zip(split_text, leading_spaces):
+        if (
+            not glued_text
+            or leading_space
+            or previous_word.endswith(("](", "]["))
+            or HTML_NEWLINE_REGEX.match(previous_word)
+            or HTML_NEWLINE_REGEX.match(word)
+        ):
+            glued_text.append(word)
+            glued_spaces.append(leading_space)
+        else:
+            glued_text[-1] += word
+        previous_word = word
+
+    groups: List[str] = []
+    group_spaces: List[bool] = []
+    for word, leading_space in zip(glued_text, glued_spaces):
+        if not groups or _can_start_line(word):
+            groups.append(word)
+            group_spaces.append(leading_space)
+        else:
+            groups[-1] += f" {word}" if leading_space else word
+    return groups, group_spaces
+
+
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
     new_split_text = [""]
+    split_text, leading_spaces = _group_unbreakable(split_text, leading_spaces)
     for word, leading_space in zip(split_text, leading_spaces):
         if leading_space and new_split_text[-1]:
             potential_new_string = f"{new_split_text[-1]} {word}"
@@ -23,7 +77,7 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             new_split_text.append(word)
 
         # If we hit an HTML new line, the next text should begin on a new line.
-        if HTML_NEWLINE_REGEX.match(word):
+        if HTML_NEWLINE_REGEX.fullmatch(word):
             new_split_text.append("")
 
     if not new_split_text[-1]:
-- 
2.43.0


From a0760eccef2f33fb8ced02417e093ca8c72adcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 19/59] fix: keep hard line breaks written as a backslash

---
 markflow/_utils/textwrap.py     |  7 ++++++-
 markflow/detectors/_lines.py    | 20 ++++++++++++++++++++
 markflow/detectors/paragraph.py | 10 +++++++---
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index ed20882..ad34c3d 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -12,6 +12,7 @@ BLOCK_START_REGEX = re.compile(
     r"~~~|"  # Fenced code blocks
     r"(?:\++|-+|\*+|_+|=+|[0-9]+[.)])$"  # Lists, thematic breaks and underlines
 )
+TRAILING_BACKSLASH_REGEX = re.compile(r"(?<!\\)(?:\\\\)*\\$")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
@@ -55,7 +56,11 @@ def _group_unbreakable(
     groups: List[str] = []
     group_spaces: List[bool] = []
     for word, leading_space in zip(glued_text, glued_spaces):
-        if not groups or _can_start_line(word):
+        if not groups or (
+            _can_start_line(word)
+            # A backslash at the end of a line would become a hard line break.
+            and not TRAILING_BACKSLASH_REGEX.search(groups[-1])
+        ):
             groups.append(word)
             group_spaces.append(leading_space)
         else:
diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index d4f37b4..480dd8b 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -27,6 +27,26 @@ ORDERED_LIST_START_REGEX = re.compile(
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
+def ends_with_hard_line_break(line: str) -> bool:
+    """Evaluates whether a line of a paragraph ends with a hard line break
+
+    Examples:
+        ```
+        Two spaces at the end of a line (invisible here)
+        or a backslash\\
+        result in a line break.
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        True if the line ends with a hard line break. False otherwise.
+    """
+    backslash_count = len(line) - len(line.rstrip("\\"))
+    return line.endswith("  ") or backslash_count % 2 == 1
+
+
 def is_atx_heading_line(line: str) -> bool:
     """Evaluates whether a line is formatted like an ATX heading
 
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..35238d1 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,6 +1,10 @@
 from typing import Generator, List, Tuple
 
-from ._lines import is_paragraph_start_line, is_setext_underline
+from ._lines import (
+    ends_with_hard_line_break,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
 from .block_quote import split_block_quote
@@ -94,7 +98,7 @@ def split_paragraph_ignoring_setext(
     if is_paragraph_start_line(lines[0]):
         # ToDo: This should be handled in `wrap` as a double space is always a newline
         #  in any section type. Also add indents while you're there.
-        if lines[0].endswith("  "):
+        if ends_with_hard_line_break(lines[0]):
             return [lines[0]], lines[1:]
         paragraph_lines.append(lines[0])
         tail_lines_generator = list_tail_generator(lines[1:])
@@ -105,7 +109,7 @@ def split_paragraph_ignoring_setext(
                 paragraph_lines.append(tail[0])
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
-                if tail[0].endswith("  "):
+                if ends_with_hard_line_break(tail[0]):
                     remaining_lines = next(tail_lines_generator)
                     break
             else:
-- 
2.43.0


From 0da68672570b21743ef2d3ca71a14b6fc54c1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 20/59] fix: do not crash on a hard line break at the end of a
 document

---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 35238d1..a4b9507 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -110,7 +110,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if ends_with_hard_line_break(tail[0]):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = tail[1:]
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From b1cc42f7cc2d7ab151457b771a5e62c6c3f10762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 21/59] fix: indent the content of ordered list items by their
 own marker

Code in the items with the shorter numbers of a list was indented by more than
the marker, so that it was no longer stable.
---
 markflow/formatters/lists.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 8871876..43aef6e 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -164,12 +164,12 @@ class MarkdownOrderedList(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         list_entries = _split_list(self.lines)
-        # '99. '
-        toplevel_indent = len(str(self.first_number + len(list_entries) - 1)) + 2
         dedented_entries = _dedent_entries(list_entries)
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
+            # '99. '
+            toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
-- 
2.43.0


From 4c124548c513e71ae033af77fdb32e398c3f807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 22/59] fix: keep all content of a list entry in its list

Blank lines, tables and thematic breaks ended a list even when they were inside of a
fenced code block or were followed by more indented content of the entry. Fenced code
blocks right behind a marker were not recognised, spaces behind the marker shifted
indented code, and a list of the other kind was merged into a list.
---
 markflow/detectors/_lists.py       | 97 ++++++++++++++++++++++++++++++
 markflow/detectors/bullet_list.py  |  9 ++-
 markflow/detectors/ordered_list.py |  9 ++-
 markflow/formatters/lists.py       | 82 ++++++-------------------
 4 files changed, 128 insertions(+), 69 deletions(-)
 create mode 100644 markflow/detectors/_lists.py

diff --git a/markflow/detectors/_lists.py b/markflow/detectors/_lists.py
new file mode 100644
index 0000000..368acee
--- /dev/null
+++ b/markflow/detectors/_lists.py
@@ -0,0 +1,97 @@
+"""
+MarkFlow List Detection Library
+
+This library holds what the detection of bullet and ordered lists has in common.
+"""
+
+import re
+from typing import Iterator, List
+
+from .._utils import get_indent
+from ._lines import (
+    is_blank_line_line,
+    is_fenced_code_block_end_line,
+    is_fenced_code_block_start_line,
+    is_thematic_break_line,
+)
+
+MARKER_REGEX = re.compile(
+    r"^\s*"  # Leading spaces are allowed and often expected
+    r"("
+    r"\*|"  # Asterisk list marker
+    r"-|"  # Dash list marker
+    r"\+|"  # Plus list marker
+    r"[0-9]+\."  # Numeric list marker
+    r")"
+    r"($| )"  # End of line or space
+)
+MAX_MARKER_SPACES = 4
+
+
+def get_list_content_indent(line: str) -> int:
+    """Returns the indent of the content of the list entry that starts on a line
+
+    Examples:
+        ```
+        * The indent is two
+        12. The indent is four
+        -   The indent is four as well
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        The indent of the entry's content.
+    """
+    match = MARKER_REGEX.match(line)
+    if match is None:
+        raise RuntimeError(
+            "Attempted to find the end of a list marker on a line that doesn't have "
+            "one. Please open a bug report or email jholland@duosecurity.com."
+        )
+    content = line[match.end(1) :]
+    spaces = get_indent(content)
+    if not content.strip() or spaces > MAX_MARKER_SPACES:
+        # Everything past the first space is already content, i.e. indented code.
+        spaces = 1
+    return match.end(1) + spaces
+
+
+def _get_opened_fence(line: str) -> str:
+    while MARKER_REGEX.match(line) and not is_thematic_break_line(line):
+        line = line[get_list_content_indent(line) :]
+    if not is_fenced_code_block_start_line(line):
+        return ""
+    line = line.strip()
+    return line[: len(line) - len(line.lstrip(line[0]))]
+
+
+def iterate_entry_content(lines: List[str]) -> Iterator[bool]:
+    """Iterates over whether the lines of a list are the content of an entry
+
+    Lines that are indented far enough or that are inside of a fenced code block cannot
+    end a list or start its next entry, no matter what they look like.
+
+    Args:
+        lines: The lines to evaluate. The first one has to start a list.
+
+    Returns:
+        A generator that returns for each line whether it is such content.
+    """
+    content_indent = 0
+    fence = ""
+    for index, line in enumerate(lines):
+        if fence:
+            yield True
+            if is_fenced_code_block_end_line(line, fence):
+                fence = ""
+            continue
+
+        # Blank lines are only part of an entry if more of its content follows
+        next_line = next((li for li in lines[index:] if not is_blank_line_line(li)), "")
+        is_content = index > 0 and get_indent(next_line) >= content_indent
+        yield is_content
+        if not is_content and MARKER_REGEX.match(line):
+            content_indent = get_list_content_indent(line)
+        fence = _get_opened_fence(line)
diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index 5adc533..fdfc46d 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -3,9 +3,11 @@ from typing import List, Tuple
 from ._lines import (
     is_blank_line_line,
     is_bullet_list_start_line,
+    is_ordered_list_start_line,
     is_table_start_line,
     is_thematic_break_line,
 )
+from ._lists import iterate_entry_content
 
 
 def split_bullet_list(
@@ -20,9 +22,12 @@ def split_bullet_list(
         return bullet_list, remaining_lines
 
     bullet_list.append(line)
-    for index, line in indexed_line_generator:
-        if (
+    content_generator = iterate_entry_content(lines)
+    next(content_generator)
+    for (index, line), is_content in zip(indexed_line_generator, content_generator):
+        if not is_content and (
             is_blank_line_line(line)
+            or is_ordered_list_start_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
         ):
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index 4d63b66..16fb798 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -2,10 +2,12 @@ from typing import List, Tuple
 
 from ._lines import (
     is_blank_line_line,
+    is_bullet_list_start_line,
     is_ordered_list_start_line,
     is_table_start_line,
     is_thematic_break_line,
 )
+from ._lists import iterate_entry_content
 
 
 def split_ordered_list(
@@ -20,9 +22,12 @@ def split_ordered_list(
         return ordered_list, remaining_lines
 
     ordered_list.append(line)
-    for index, line in indexed_line_generator:
-        if (
+    content_generator = iterate_entry_content(lines)
+    next(content_generator)
+    for (index, line), is_content in zip(indexed_line_generator, content_generator):
+        if not is_content and (
             is_blank_line_line(line)
+            or is_bullet_list_start_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
         ):
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 43aef6e..8eb9ebb 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -3,28 +3,18 @@
 # 3. Determine indentation level
 # 4. Pass each entry to the formatter
 # 5. Combine the resulting output
-import re
 import string
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
-from ..detectors._lines import (
-    is_fenced_code_block_end_line,
-    is_fenced_code_block_start_line,
+from .._utils import redirect_info_logs_to_debug, truncate_str
+from ..detectors._lists import (
+    MARKER_REGEX,
+    get_list_content_indent,
+    iterate_entry_content,
 )
 from ..typing import Number
 from .base import MarkdownSection
 
-MARKER_REGEX = re.compile(
-    r"^\s*"  # Leading spaces are allowed and often expected
-    r"("
-    r"\*|"  # Asterisk list marker
-    r"-|"  # Dash list marker
-    r"\+|"  # Plus list marker
-    r"[0-9]+\."  # Numeric list marker
-    r")"
-    r"($| )"  # End of line or space
-)
 REPR_CONTENT_LEN = 20
 
 
@@ -39,53 +29,11 @@ def _reformat_markdown(lines: List[str], width: Number) -> str:
     return text
 
 
-def _list_marker_end_pos(line: str) -> int:
-    """Return the number of characters before the end of a list marker
-
-    Note: This does not include the trailing space in the count.
-
-    Args:
-        line: The lines to evaluate.
-
-    Returns:
-        True if the first line would continue the paragraph. False otherwise.
-    """
-
-    match = MARKER_REGEX.match(line)
-    if match is None:
-        raise RuntimeError(
-            "Attempted to find the end of a list marker on a line that doesn't have "
-            "one. Please open a bug report or email jholland@duosecurity.com."
-        )
-    return match.end(1)
-
-
 def _split_list(lines: List[str]) -> List[List[str]]:
-    in_code_block = False
-    code_block_marker = ""
-
     list_entries: List[List[str]] = []
-    max_indent = _list_marker_end_pos(lines[0])
-    for line in lines:
-        if in_code_block:
-            if is_fenced_code_block_end_line(line, code_block_marker):
-                in_code_block = False
-        elif is_fenced_code_block_start_line(line):
-            code_block_symbol = line.lstrip()[0]
-            code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip().lstrip(code_block_symbol)
-            )
-            code_block_marker = code_block_marker_length * code_block_symbol
-            in_code_block = True
-
-        if MARKER_REGEX.match(line) and not in_code_block:
-            line_indent = get_indent(line)
-            list_indent = _list_marker_end_pos(line)
-            if line_indent <= max_indent:
-                max_indent = list_indent
-                list_entries.append([line])
-            else:
-                list_entries[-1].append(line)
+    for line, is_content in zip(lines, iterate_entry_content(lines)):
+        if MARKER_REGEX.match(line) and not is_content:
+            list_entries.append([line])
         else:
             list_entries[-1].append(line)
     return list_entries
@@ -96,7 +44,7 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     #  *read*
     dedented_entries: List[List[str]] = []
     for entry in list_entries:
-        indent = _list_marker_end_pos(entry[0]) + 1
+        indent = get_list_content_indent(entry[0])
         dedented_entries.append([entry[0][indent:]])
         for line in entry[1:]:
             dedented_entry = line[:indent].lstrip() + line[indent:]
@@ -104,6 +52,12 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     return dedented_entries
 
 
+def _indent_entry(entry: str, indent: int) -> str:
+    first_line, *lines = entry.split("\n")
+    # Don't leave trailing spaces on blank lines
+    return "\n".join([first_line] + [" " * indent + li if li else li for li in lines])
+
+
 class MarkdownBulletList(MarkdownSection):
     @property
     def marker(self) -> str:
@@ -129,9 +83,7 @@ class MarkdownBulletList(MarkdownSection):
                     entry, width - toplevel_indent
                 ).rstrip("\n")
             reformatted_entry = (
-                self.marker
-                + " "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+                self.marker + " " + _indent_entry(reformatted_entry, toplevel_indent)
             )
             reformatted_entries.append(reformatted_entry)
 
@@ -177,7 +129,7 @@ class MarkdownOrderedList(MarkdownSection):
             reformatted_entry = (
                 str(entry_number)
                 + ". "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+                + _indent_entry(reformatted_entry, toplevel_indent)
             )
             reformatted_entries.append(reformatted_entry)
 
-- 
2.43.0


From 5bdfa489272ac04c3ed66b30b6927195a945f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 23/59] fix: report the line of the document for malformed
 nested tables

---
 markflow/formatters/block_quote.py |  6 +++---
 markflow/formatters/lists.py       | 12 ++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 9ce7811..c332124 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -16,13 +16,13 @@ LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
 logger = logging.getLogger(__name__)
 
 
-def _reformat_markdown(lines: List[str], width: Number) -> str:
+def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     # Prevents issues from circular imports. Since this module would already be loaded
     # whenever we call this function, we know it's cached.
     from ..reformat_markdown import _reformat_markdown_text
 
     with redirect_info_logs_to_debug():
-        text = _reformat_markdown_text("\n".join(lines) + "\n", width)
+        text = _reformat_markdown_text("\n".join(lines) + "\n", width, line_index)
 
     return text
 
@@ -76,7 +76,7 @@ class MarkdownBlockQuote(MarkdownSection):
 
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
-        text = _reformat_markdown(stripped_lines, width=sub_width)
+        text = _reformat_markdown(stripped_lines, sub_width, self.line_index)
         text = "\n".join(
             prefix + line if line else prefix.rstrip() for line in text.splitlines()
         )
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 8eb9ebb..4163a51 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -18,13 +18,13 @@ from .base import MarkdownSection
 REPR_CONTENT_LEN = 20
 
 
-def _reformat_markdown(lines: List[str], width: Number) -> str:
+def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     # Prevents issues from circular imports. Since this module would already be loaded
     # whenever we call this function, we know it's cached.
     from ..reformat_markdown import _reformat_markdown_text
 
     with redirect_info_logs_to_debug():
-        text = _reformat_markdown_text("\n".join(lines) + "\n", width)
+        text = _reformat_markdown_text("\n".join(lines) + "\n", width, line_index)
 
     return text
 
@@ -76,12 +76,14 @@ class MarkdownBulletList(MarkdownSection):
         toplevel_indent = 2
         dedented_entries = _dedent_entries(list_entries)
 
+        line_index = self.line_index
         reformatted_entries: List[str] = []
         for entry in dedented_entries:
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent
+                    entry, width - toplevel_indent, line_index
                 ).rstrip("\n")
+            line_index += len(entry)
             reformatted_entry = (
                 self.marker + " " + _indent_entry(reformatted_entry, toplevel_indent)
             )
@@ -118,14 +120,16 @@ class MarkdownOrderedList(MarkdownSection):
         list_entries = _split_list(self.lines)
         dedented_entries = _dedent_entries(list_entries)
 
+        line_index = self.line_index
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
             # '99. '
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent
+                    entry, width - toplevel_indent, line_index
                 ).rstrip("\n")
+            line_index += len(entry)
             reformatted_entry = (
                 str(entry_number)
                 + ". "
-- 
2.43.0


From beea4f5586c2623d891b518233507b8df12f3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 24/59] fix: do not lift the line length of deeply nested text

Once the indentation used up all of the line length, the remaining length of zero or
less was taken for no limit at all.
---
 markflow/_utils/_utils.py          | 12 ++++++++++++
 markflow/formatters/block_quote.py | 10 +++++++---
 markflow/formatters/lists.py       |  6 +++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..50c7661 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -2,8 +2,11 @@ import contextlib
 import logging
 from typing import Iterator
 
+from ..typing import Number
+
 __all__ = [
     "get_indent",
+    "get_nested_width",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
@@ -15,6 +18,15 @@ def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
 
 
+def get_nested_width(width: Number, indent: int) -> Number:
+    """Returns the line length that is left for text at an indent
+
+    Zero and below mean that the line length is not limited, so this never goes from a
+    limited line length to that.
+    """
+    return max(width - indent, 1) if width > 0 else width
+
+
 def truncate_str(str_: str, length: int) -> str:
     if len(str_) <= length:
         pass
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index c332124..f9bca7d 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -2,7 +2,12 @@ import logging
 import re
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import (
+    get_indent,
+    get_nested_width,
+    redirect_info_logs_to_debug,
+    truncate_str,
+)
 from ..detectors._lines import is_explicit_block_quote_line
 from ..typing import Number
 from .base import MarkdownSection
@@ -68,11 +73,10 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - 1
         prefix = ">"
         if has_space:
-            sub_width -= 1
             prefix += " "
+        sub_width = get_nested_width(width, len(prefix))
 
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 4163a51..ff04658 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -6,7 +6,7 @@
 import string
 from typing import List
 
-from .._utils import redirect_info_logs_to_debug, truncate_str
+from .._utils import get_nested_width, redirect_info_logs_to_debug, truncate_str
 from ..detectors._lists import (
     MARKER_REGEX,
     get_list_content_indent,
@@ -81,7 +81,7 @@ class MarkdownBulletList(MarkdownSection):
         for entry in dedented_entries:
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent, line_index
+                    entry, get_nested_width(width, toplevel_indent), line_index
                 ).rstrip("\n")
             line_index += len(entry)
             reformatted_entry = (
@@ -127,7 +127,7 @@ class MarkdownOrderedList(MarkdownSection):
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent, line_index
+                    entry, get_nested_width(width, toplevel_indent), line_index
                 ).rstrip("\n")
             line_index += len(entry)
             reformatted_entry = (
-- 
2.43.0


From 4036dfb7c171ac895796f21e2ef7c6d865f46ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 25/59] fix: do not modify the logging configuration of the
 process

An exception left logging.INFO patched for good, concurrent calls could do the same,
and the first call pinned the level of a logger.
---
 markflow/_utils/_utils.py     | 20 ++++++++++++++++----
 markflow/reformat_markdown.py | 29 ++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 50c7661..c47a377 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,4 +1,5 @@
 import contextlib
+import contextvars
 import logging
 from typing import Iterator
 
@@ -6,6 +7,7 @@ from ..typing import Number
 
 __all__ = [
     "get_indent",
+    "get_info_log_level",
     "get_nested_width",
     "truncate_str",
     "redirect_info_logs_to_debug",
@@ -13,6 +15,10 @@ __all__ = [
 
 ELLIPSIS = "..."
 
+# The process's logging configuration isn't ours to modify, not even temporarily, as
+# there can be other threads.
+_info_log_level = contextvars.ContextVar("info_log_level", default=logging.INFO)
+
 
 def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
@@ -40,7 +46,13 @@ def truncate_str(str_: str, length: int) -> str:
 
 @contextlib.contextmanager
 def redirect_info_logs_to_debug() -> Iterator[None]:
-    old_info = logging.INFO
-    logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    token = _info_log_level.set(logging.DEBUG)
+    try:
+        yield
+    finally:
+        _info_log_level.reset(token)
+
+
+def get_info_log_level() -> int:
+    """Returns the level that informational messages should currently be logged at"""
+    return _info_log_level.get()
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..f3e553a 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,8 @@
+import contextvars
 import logging
 from typing import Dict, Type
 
+from ._utils import get_info_log_level
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -24,6 +26,20 @@ __all__ = ["reformat_markdown_text"]
 
 logger = logging.getLogger(__name__)
 
+_is_second_pass = contextvars.ContextVar("is_second_pass", default=False)
+
+
+def _filter_second_pass(record: logging.LogRecord) -> bool:
+    # Mute logging during second pass since it means nothing to the user.
+    return (
+        not _is_second_pass.get()
+        or record.levelno >= logging.ERROR
+        or logger.isEnabledFor(logging.DEBUG)
+    )
+
+
+logger.addFilter(_filter_second_pass)
+
 
 FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
     MarkdownSectionEnum.ATX_HEADING: MarkdownATXHeading,
@@ -54,7 +70,7 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             log_text = f"Lines {line_index + 1}-{line_index + content_length}"
         else:
             log_text = f"Line {line_index + 1}"
-        logger.info("%s: %s", log_text, repr(formatter))
+        logger.log(get_info_log_level(), "%s: %s", log_text, repr(formatter))
         if (
             section_type == MarkdownSectionEnum.SETEXT_HEADING
             and last_section_type == MarkdownSectionEnum.BLOCK_QUOTE
@@ -87,12 +103,11 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.getEffectiveLevel()
-    # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
-        logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
-    logger.setLevel(level)
+    token = _is_second_pass.set(True)
+    try:
+        new_new_text = _reformat_markdown_text(new_text, width)
+    finally:
+        _is_second_pass.reset(token)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From c526de624a1b2dca250c9fbff951348c0e71524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 26/59] fix: split lines at Markdown line endings only

A form feed or a Unicode line separator inside of a line split it in two.
---
 markflow/_utils/_utils.py                        | 15 ++++++++++++++-
 markflow/_utils/textwrap.py                      |  4 +++-
 markflow/formatters/block_quote.py               |  3 ++-
 markflow/formatters/link_reference_definition.py |  6 +++---
 markflow/formatters/setext_heading.py            |  4 ++--
 markflow/reformat_markdown.py                    |  4 ++--
 6 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index c47a377..0089b8b 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,7 +1,8 @@
 import contextlib
 import contextvars
 import logging
-from typing import Iterator
+import re
+from typing import Iterator, List
 
 from ..typing import Number
 
@@ -11,9 +12,11 @@ __all__ = [
     "get_nested_width",
     "truncate_str",
     "redirect_info_logs_to_debug",
+    "split_lines",
 ]
 
 ELLIPSIS = "..."
+LINE_ENDING_REGEX = re.compile(r"\r\n|\n|\r")
 
 # The process's logging configuration isn't ours to modify, not even temporarily, as
 # there can be other threads.
@@ -33,6 +36,16 @@ def get_nested_width(width: Number, indent: int) -> Number:
     return max(width - indent, 1) if width > 0 else width
 
 
+def split_lines(text: str) -> List[str]:
+    """Splits text at the line endings of Markdown
+
+    In contrast to this, str.splitlines also splits at form feeds and various other
+    characters.
+    """
+    lines = LINE_ENDING_REGEX.split(text)
+    return lines if lines[-1] else lines[:-1]
+
+
 def truncate_str(str_: str, length: int) -> str:
     if len(str_) <= length:
         pass
diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index ad34c3d..5341ac2 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -3,6 +3,8 @@ from typing import Iterator, List, Match, Tuple
 
 from markflow.typing import Number
 
+from ._utils import split_lines
+
 ESCAPED_CHARACTER_OR_CODE_MARKER_REGEX = re.compile(r"\\.|`+")
 INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
@@ -329,7 +331,7 @@ def space_split(
 
 def wrap(text: str, width: Number) -> str:
     # TODO: Should wrap be modifying the input. Maybe assert there's no newlines?
-    lines = text.splitlines()
+    lines = split_lines(text)
     text = " ".join([line.strip() for line in lines])
 
     split_text: List[str] = [text]
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f9bca7d..1c9c91a 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -6,6 +6,7 @@ from .._utils import (
     get_indent,
     get_nested_width,
     redirect_info_logs_to_debug,
+    split_lines,
     truncate_str,
 )
 from ..detectors._lines import is_explicit_block_quote_line
@@ -82,7 +83,7 @@ class MarkdownBlockQuote(MarkdownSection):
         #  change.
         text = _reformat_markdown(stripped_lines, sub_width, self.line_index)
         text = "\n".join(
-            prefix + line if line else prefix.rstrip() for line in text.splitlines()
+            prefix + line if line else prefix.rstrip() for line in split_lines(text)
         )
 
         return text
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2281005..2646985 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -25,7 +25,7 @@ https://spec.commonmark.org/0.29/#link-label
 
 import re
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -101,8 +101,8 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         # overflow lines (the label and url portions).
         if title.split()[0] in self.lines[last_index]:
             # Our title was on the line with our link
-            if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
-                lines = str_.splitlines()
+            if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
+                lines = split_lines(str_)
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
                 str_ += "\n" + wrap(title, width)
diff --git a/markflow/formatters/setext_heading.py b/markflow/formatters/setext_heading.py
index 4581361..8cb289c 100644
--- a/markflow/formatters/setext_heading.py
+++ b/markflow/formatters/setext_heading.py
@@ -24,7 +24,7 @@ blank line is needed between them.
 https://spec.commonmark.org/0.29/#setext-headings
 """
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -56,7 +56,7 @@ class MarkdownSetextHeading(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         heading_str = wrap(self.content, width)
-        heading_len = max(len(line) for line in heading_str.splitlines())
+        heading_len = max(len(line) for line in split_lines(heading_str))
         return heading_str + "\n" + self.char * heading_len
 
     def __repr__(self) -> str:
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index f3e553a..8102d76 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -2,7 +2,7 @@ import contextvars
 import logging
 from typing import Dict, Type
 
-from ._utils import get_info_log_level
+from ._utils import get_info_log_level, split_lines
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -58,7 +58,7 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
 
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
-    sections = parse_markdown(text.splitlines())
+    sections = parse_markdown(split_lines(text))
 
     formatters = []
     last_section_type = MarkdownSectionEnum.INVALID
-- 
2.43.0


From 5207fe158b93ef2713c65449723192069f5431a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 27/59] fix: keep the destination of a link reference
 definition on its line

A label that contained the destination's text moved it to the line of the label.
---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2646985..7a7b6f7 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -87,7 +87,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         if not self.link:
             return str_
 
-        if self.link in self.lines[last_index]:
+        if self.link in self.lines[last_index].partition("]:")[2]:
             str_ += f" {self.link}"
         else:
             last_index = 1
-- 
2.43.0


From a0ec9c2ee557106e93693deddba2961e6b9eff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 28/59] fix: do not write already formatted files with --check

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..597d808 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From f96299a8a809fb2dfeb63a7091c42ff72a02945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 29/59] fix: find the Markdown files of every directory

Directories with glob characters in their name were taken for patterns, directories that
end in .md for files.
---
 markflow/_argparse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..7333292 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -122,6 +122,11 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
-                expanded_paths += [pathlib.Path(path) for path in markdown_paths]
+                markdown_paths = glob.glob(
+                    str(pathlib.Path(glob.escape(str(value))) / "**" / "*.md"),
+                    recursive=True,
+                )
+                expanded_paths += [
+                    path for path in map(pathlib.Path, markdown_paths) if path.is_file()
+                ]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From 238682882bbb144005808c5d2204df197a68e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 30/59] fix: name the file that contains a malformed table

---
 markflow/__main__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 597d808..8cd0738 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -280,17 +280,15 @@ def _reformat_files(args: argparse.Namespace) -> int:
         old_contents = input_path.read_text()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
-        except RuntimeError as runtime_error:
-            if args.write_renders and isinstance(
-                runtime_error, ReformatInconsistentException
-            ):
+        except (MarkdownFormatException, RuntimeError) as error:
+            if args.write_renders and isinstance(error, ReformatInconsistentException):
                 _write_renders(input_path, output_path, args.line_length)
             # Add file information to our exception
             new_args = []
-            new_args.append(runtime_error.args[0] + f" (file: {str(input_path)})")
-            for arg in runtime_error.args[1:]:
+            new_args.append(error.args[0] + f" (file: {str(input_path)})")
+            for arg in error.args[1:]:
                 new_args.append(arg)
-            runtime_error.args = tuple(new_args)
+            error.args = tuple(new_args)
             raise
         if new_contents != old_contents:
             files_changed += 1
-- 
2.43.0


From 430e1697d255cefbe2b164648216fc0231d941ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 31/59] fix: write log messages to STDERR

When used as a filter, they ended up in the formatted text.
---
 markflow/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 8cd0738..981abed 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -200,7 +200,10 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
     logging.basicConfig(
         format="",
         level=logging_levels[verbosity],
-        handlers=[rich.logging.RichHandler()],
+        # STDOUT is reserved for results
+        handlers=[
+            rich.logging.RichHandler(console=rich.console.Console(stderr=True))
+        ],
     )
 
     if args.developer_help:
-- 
2.43.0


From f971106f470e22c084c85678ae59c8aa6d5da4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 32/59] fix: do not wait for STDIN when a directory has no
 Markdown files

---
 markflow/__main__.py  | 2 +-
 markflow/_argparse.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 981abed..c961f84 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -368,7 +368,7 @@ def main(argv: List[str]) -> int:
     if args.line_length < 1:
         args.line_length = math.inf
 
-    if not args.paths:
+    if not args.paths_passed:
         if sys.stdin.isatty():
             print_markdown("**No path provided. Nothing to do.**")
             return 0
diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 7333292..2abd5a5 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -130,3 +130,5 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
                     path for path in map(pathlib.Path, markdown_paths) if path.is_file()
                 ]
         setattr(namespace, self.dest, expanded_paths)
+        # Distinguishes directories without Markdown files from no paths at all
+        setattr(namespace, f"{self.dest}_passed", bool(values))
-- 
2.43.0


From bf9415a980d6d7794aaefe9477913371a787e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 33/59] fix: refuse to write several inputs to the same output
 file

---
 markflow/__main__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index c961f84..936fcc8 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -4,7 +4,7 @@ import math
 import pathlib
 import re
 import sys
-from typing import List, TextIO
+from typing import Dict, List, TextIO
 
 import rich.console
 import rich.logging
@@ -223,6 +223,18 @@ def parse_args(argv: List[str]) -> argparse.Namespace:
         )
         sys.exit(-1)
 
+    # Files with the same name would overwrite each other in the output directory.
+    if args.output_directory:
+        names: Dict[str, pathlib.Path] = {}
+        for path in args.paths:
+            if names.setdefault(path.name, path).resolve() != path.resolve():
+                parser.print_usage()
+                print(
+                    f"{parser.prog}: error: argument --output-dir: multiple files "
+                    f"named {repr(path.name)} specified"
+                )
+                sys.exit(-1)
+
     # If we aren't writing to other files, ensure we can write to the files that were
     # passed in as we only guaranteed they were readable by `parse_args`. We sort of
     # duplicate argparse's parameter construction here to do so.
-- 
2.43.0


From b0871c5c3573b42e05048e92f4306eb4ff59caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 34/59] fix: end a list at a heading or block quote that is not
 part of it

---
 markflow/detectors/bullet_list.py  | 4 ++++
 markflow/detectors/ordered_list.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index fdfc46d..065d239 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -1,8 +1,10 @@
 from typing import List, Tuple
 
 from ._lines import (
+    is_atx_heading_line,
     is_blank_line_line,
     is_bullet_list_start_line,
+    is_explicit_block_quote_line,
     is_ordered_list_start_line,
     is_table_start_line,
     is_thematic_break_line,
@@ -27,6 +29,8 @@ def split_bullet_list(
     for (index, line), is_content in zip(indexed_line_generator, content_generator):
         if not is_content and (
             is_blank_line_line(line)
+            or is_atx_heading_line(line)
+            or is_explicit_block_quote_line(line)
             or is_ordered_list_start_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index 16fb798..6b2b7b8 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -1,8 +1,10 @@
 from typing import List, Tuple
 
 from ._lines import (
+    is_atx_heading_line,
     is_blank_line_line,
     is_bullet_list_start_line,
+    is_explicit_block_quote_line,
     is_ordered_list_start_line,
     is_table_start_line,
     is_thematic_break_line,
@@ -27,6 +29,8 @@ def split_ordered_list(
     for (index, line), is_content in zip(indexed_line_generator, content_generator):
         if not is_content and (
             is_blank_line_line(line)
+            or is_atx_heading_line(line)
+            or is_explicit_block_quote_line(line)
             or is_bullet_list_start_line(line)
             or is_table_start_line(line)
             or is_thematic_break_line(line)
-- 
2.43.0


From 483c0c89ed279933d6900ce69edc26e15ef6852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 35/59] fix: do not take indented code for a fenced code block

---
 markflow/detectors/_lines.py | 2 ++
 markflow/detectors/_lists.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 480dd8b..3fa044c 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -120,6 +120,8 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     Returns:
         True if the line is could open a fenced code block. False otherwise.
     """
+    if is_indented_code_block_start_line(line):
+        return False
     for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         if line.strip().startswith(fence * 3):
             # The info string after backticks cannot contain any, otherwise this is
diff --git a/markflow/detectors/_lists.py b/markflow/detectors/_lists.py
index 368acee..117ed8c 100644
--- a/markflow/detectors/_lists.py
+++ b/markflow/detectors/_lists.py
@@ -94,4 +94,7 @@ def iterate_entry_content(lines: List[str]) -> Iterator[bool]:
         yield is_content
         if not is_content and MARKER_REGEX.match(line):
             content_indent = get_list_content_indent(line)
-        fence = _get_opened_fence(line)
+        content = line
+        if is_content and get_indent(line) >= content_indent:
+            content = line[content_indent:]
+        fence = _get_opened_fence(content)
-- 
2.43.0


From 090b64ccf71c9fb6995a9c9780b3b8718ba9c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 36/59] fix: write valid dividers for empty centered columns

---
 markflow/formatters/table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index e04db7a..c32bdaa 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -92,7 +92,11 @@ class MarkdownTable(MarkdownSection):
                     f"(expected: {header_column_count}, actual: {len(column_width)})"
                 )
 
-        new_column_widths = [0 for _ in column_widths[0]]
+        # The divider of a centered column needs at least one dash.
+        new_column_widths = [
+            1 if alignment == Alignment.CENTER else 0
+            for alignment in column_alignments
+        ]
         for widths in column_widths:
             for i, width in enumerate(widths):
                 if width > new_column_widths[i]:
-- 
2.43.0


From 01d047f6c04fb79f41901c2d15762311782d0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 37/59] fix: keep the destination of links that directly follow
 another link

---
 markflow/_utils/textwrap.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 5341ac2..e2de090 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -180,6 +180,20 @@ def code_split(
     return split_text, leading_spaces, evaluates
 
 
+def _links(text: str) -> Iterator[Match[str]]:
+    """Yields the links in text, each beginning behind the one before"""
+    position = 0
+    matches = [FOOTNOTE_REGEX.search(text), URL_REGEX.search(text)]
+    while any(matches):
+        match = min(filter(None, matches), key=lambda m: m.start())
+        yield match
+        position = match.end()
+        matches = [
+            m.re.search(text, position) if m and m.start() < position else m
+            for m in matches
+        ]
+
+
 def link_split(
     text: str, leading_space: bool
 ) -> Tuple[List[str], List[bool], List[bool]]:
@@ -200,20 +214,13 @@ def link_split(
         Split text, What sections have leading spaces, What sections should continue to
         be evaluated
     """
-    matches = [m for m in FOOTNOTE_REGEX.finditer(text)]
-    matches += [m for m in URL_REGEX.finditer(text)]
-    matches.sort(key=lambda m: m.start())
-
     split_text: List[str] = []
     leading_spaces: List[bool] = []
     evaluates: List[bool] = []
     last_end = 0
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
-    for match in matches:
-        if match.start() < last_end:
-            # Both expressions matched, the text is already part of the last link.
-            continue
+    for match in _links(text):
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
-- 
2.43.0


From 8c8d1f314175f6216b7ebe12cd3d67d40f19c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 38/59] fix: do not break lines at escaped HTML line breaks

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index e2de090..0c25c02 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -8,7 +8,7 @@ from ._utils import split_lines
 ESCAPED_CHARACTER_OR_CODE_MARKER_REGEX = re.compile(r"\\.|`+")
 INLINE_CODE_MARKER_REGEX = re.compile(r"`+")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
-HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
+HTML_NEWLINE_REGEX = re.compile(r"(?<!\\)<br ?/?>")
 BLOCK_START_REGEX = re.compile(
     r"[#>|]|"  # Headings, block quotes and tables
     r"~~~|"  # Fenced code blocks
-- 
2.43.0


From 4dc1323112141cf8901114c2636b1d52191b59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 39/59] fix: keep lazy lines after indented text in a block
 quote

---
 markflow/detectors/block_quote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..524231c 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -15,7 +15,7 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}> ?")
 
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
-- 
2.43.0


From 278c66bf867c87115cf0f02f38dd1b5340d4e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 40/59] fix: keep lazy lines after a list in its block quote

---
 markflow/detectors/block_quote.py | 19 +++++++++++++++----
 markflow/formatters/lists.py      | 12 ++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 524231c..99b2886 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -82,18 +82,29 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
 
 
 def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
-    # Avoid circular imports
-    from ..parser import MarkdownSectionEnum, parse_markdown
-
     parsing_lines = []
     for line in block_quote_lines:
         parsing_lines.append(LEADING_QUOTE_MARKER.sub("", line))
+    return _ends_with_paragraph(parsing_lines)
+
+
+def _ends_with_paragraph(lines: List[str]) -> bool:
+    # Avoid circular imports
+    from ..formatters.lists import dedent_entries, split_list
+    from ..parser import MarkdownSectionEnum, parse_markdown
 
     with redirect_info_logs_to_debug():
-        ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
+        ending_section_type, ending_section_content = parse_markdown(lines)[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
         return _block_quote_ends_with_paragraph(ending_section_content)
+    elif ending_section_type in (
+        MarkdownSectionEnum.BULLET_LIST,
+        MarkdownSectionEnum.ORDERED_LIST,
+    ):
+        return _ends_with_paragraph(
+            dedent_entries(split_list(ending_section_content))[-1]
+        )
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
     else:
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index ff04658..272a856 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -29,7 +29,7 @@ def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     return text
 
 
-def _split_list(lines: List[str]) -> List[List[str]]:
+def split_list(lines: List[str]) -> List[List[str]]:
     list_entries: List[List[str]] = []
     for line, is_content in zip(lines, iterate_entry_content(lines)):
         if MARKER_REGEX.match(line) and not is_content:
@@ -39,7 +39,7 @@ def _split_list(lines: List[str]) -> List[List[str]]:
     return list_entries
 
 
-def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
+def dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     # ToDo: Should we handle missing spaces? I don't think so. Think:
     #  *read*
     dedented_entries: List[List[str]] = []
@@ -71,10 +71,10 @@ class MarkdownBulletList(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        list_entries = _split_list(self.lines)
+        list_entries = split_list(self.lines)
         # '* '
         toplevel_indent = 2
-        dedented_entries = _dedent_entries(list_entries)
+        dedented_entries = dedent_entries(list_entries)
 
         line_index = self.line_index
         reformatted_entries: List[str] = []
@@ -117,8 +117,8 @@ class MarkdownOrderedList(MarkdownSection):
         return self.lines[0]
 
     def reformatted(self, width: Number = 88) -> str:
-        list_entries = _split_list(self.lines)
-        dedented_entries = _dedent_entries(list_entries)
+        list_entries = split_list(self.lines)
+        dedented_entries = dedent_entries(list_entries)
 
         line_index = self.line_index
         reformatted_entries: List[str] = []
-- 
2.43.0


From 1d2bfa286cec8cc1743fa8474aa63d7a6b1fd796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 41/59] fix: quote lazy lines after quotes nested in lists
 correctly

---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 1c9c91a..e0999cd 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -42,15 +42,13 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        depth = 0
         fully_quoted_lines = []
         for line in self.lines:
             if is_explicit_block_quote_line(line):
-                spaceless_string = "".join(line.split())
-                depth = len(spaceless_string) - len(spaceless_string.lstrip(">"))
                 fully_quoted_lines.append(line)
             else:
-                fully_quoted_lines.append((">" * depth) + line)
+                # Nested quotes that this line continues will add their own marker
+                fully_quoted_lines.append(">" + line)
 
         stripped_lines: List[str] = []
         for line in fully_quoted_lines:
-- 
2.43.0


From 77745c4f0c9a5a0c64b560b6bb7a66a8255d5733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 42/59] fix: avoid exponential time for nested block quotes

---
 markflow/detectors/block_quote.py | 12 ++++++++----
 markflow/detectors/paragraph.py   |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 99b2886..4b37e97 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -1,4 +1,5 @@
 import re
+from functools import lru_cache
 from typing import List, Tuple
 
 from .._utils import redirect_info_logs_to_debug
@@ -85,16 +86,19 @@ def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
     parsing_lines = []
     for line in block_quote_lines:
         parsing_lines.append(LEADING_QUOTE_MARKER.sub("", line))
-    return _ends_with_paragraph(parsing_lines)
+    return _ends_with_paragraph(tuple(parsing_lines))
 
 
-def _ends_with_paragraph(lines: List[str]) -> bool:
+# Every level of nested block quotes asks this of the content it shares with the levels
+# around it, so answers are remembered to keep the work from doubling with each level.
+@lru_cache(maxsize=1024)
+def _ends_with_paragraph(lines: Tuple[str, ...]) -> bool:
     # Avoid circular imports
     from ..formatters.lists import dedent_entries, split_list
     from ..parser import MarkdownSectionEnum, parse_markdown
 
     with redirect_info_logs_to_debug():
-        ending_section_type, ending_section_content = parse_markdown(lines)[-1]
+        ending_section_type, ending_section_content = parse_markdown(list(lines))[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
         return _block_quote_ends_with_paragraph(ending_section_content)
@@ -103,7 +107,7 @@ def _ends_with_paragraph(lines: List[str]) -> bool:
         MarkdownSectionEnum.ORDERED_LIST,
     ):
         return _ends_with_paragraph(
-            dedent_entries(split_list(ending_section_content))[-1]
+            tuple(dedent_entries(split_list(ending_section_content))[-1])
         )
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index a4b9507..37cef31 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -2,12 +2,12 @@ from typing import Generator, List, Tuple
 
 from ._lines import (
     ends_with_hard_line_break,
+    is_explicit_block_quote_line,
     is_paragraph_start_line,
     is_setext_underline,
 )
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
-from .block_quote import split_block_quote
 from .bullet_list import split_bullet_list
 from .fenced_code_block import split_fenced_code_block
 from .ordered_list import split_ordered_list
@@ -32,10 +32,12 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     Returns:
         True if the first line would continue the paragraph. False otherwise.
     """
+    # No need for the whole block quote. Finding its end evaluates paragraphs itself.
+    if is_explicit_block_quote_line(lines[0]):
+        return False
     for splitter in [
         split_atx_heading,
         split_blank_line,
-        split_block_quote,
         split_bullet_list,
         split_fenced_code_block,
         split_ordered_list,
-- 
2.43.0


From 2a690ca7e3306fb989ceb43a3aa0cc874cf218f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 43/59] fix: do not take quotes behind odd whitespace for block
 quotes

---
 markflow/detectors/_lines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 3fa044c..c359363 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -10,6 +10,7 @@ import re
 from .._utils import get_indent
 
 FENCED_CODE_BLOCK_FENCE_CHARACTERS = ["`", "~"]
+BLOCK_QUOTE_START_REGEX = re.compile(r"^ {0,3}>")
 BULLET_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"["
@@ -102,7 +103,7 @@ def is_explicit_block_quote_line(line: str) -> bool:
     Returns:
         True if the line is an block quote line. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and line.lstrip().startswith(">")
+    return BLOCK_QUOTE_START_REGEX.match(line) is not None
 
 
 def is_fenced_code_block_start_line(line: str) -> bool:
-- 
2.43.0


From 36b634295acae8b6e57bd31de87b8eb28846d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 44/59] fix: support list entries without content

---
 markflow/detectors/_lines.py    | 25 +++++++++++++++++++++++--
 markflow/detectors/paragraph.py | 10 ++++++----
 markflow/formatters/lists.py    | 18 +++++++-----------
 3 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index c359363..3289eee 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -17,14 +17,15 @@ BULLET_LIST_START_REGEX = re.compile(
     r"*"  # Asterisk list marker
     r"+"  # Plus list marker
     r"-"  # Dash list marker
-    r"] "  # Lists need a space after their identifier
+    r"]( |$)"  # Lists need a space or nothing at all after their identifier
 )
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
     r"[0-9]+\."  # Numeric list marker
-    r") "  # Lists need a space after their identifier
+    r")( |$)"  # Lists need a space or nothing at all after their identifier
 )
+EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)\s*$")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
@@ -205,6 +206,26 @@ def is_bullet_list_start_line(line: str) -> bool:
     )
 
 
+def is_empty_list_entry_line(line: str) -> bool:
+    """Evaluates whether a line could be a list entry without any content
+
+    Such an entry can start a list, but it cannot interrupt a paragraph.
+
+    Examples:
+        ```
+        -
+        1.
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        True if the line is only the marker of a list entry. False otherwise.
+    """
+    return EMPTY_LIST_ENTRY_REGEX.match(line) is not None
+
+
 def is_paragraph_start_line(line: str) -> bool:
     """Evaluates whether a line could start a paragraph
 
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 37cef31..dc21a29 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -2,6 +2,7 @@ from typing import Generator, List, Tuple
 
 from ._lines import (
     ends_with_hard_line_break,
+    is_empty_list_entry_line,
     is_explicit_block_quote_line,
     is_paragraph_start_line,
     is_setext_underline,
@@ -35,15 +36,16 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     # No need for the whole block quote. Finding its end evaluates paragraphs itself.
     if is_explicit_block_quote_line(lines[0]):
         return False
-    for splitter in [
+    splitters = [
         split_atx_heading,
         split_blank_line,
-        split_bullet_list,
         split_fenced_code_block,
-        split_ordered_list,
         split_table,
         split_thematic_break,
-    ]:
+    ]
+    if not is_empty_list_entry_line(lines[0]):
+        splitters += [split_bullet_list, split_ordered_list]
+    for splitter in splitters:
         # ToDo: Disable logging?
         if splitter(lines, line_offset)[0]:
             return False
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 272a856..e8728af 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -52,10 +52,12 @@ def dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     return dedented_entries
 
 
-def _indent_entry(entry: str, indent: int) -> str:
+def _mark_entry(marker: str, entry: str) -> str:
     first_line, *lines = entry.split("\n")
+    indent = " " * (len(marker) + 1)
     # Don't leave trailing spaces on blank lines
-    return "\n".join([first_line] + [" " * indent + li if li else li for li in lines])
+    marked_lines = [marker + " " + first_line if first_line else marker]
+    return "\n".join(marked_lines + [indent + li if li else li for li in lines])
 
 
 class MarkdownBulletList(MarkdownSection):
@@ -84,10 +86,7 @@ class MarkdownBulletList(MarkdownSection):
                     entry, get_nested_width(width, toplevel_indent), line_index
                 ).rstrip("\n")
             line_index += len(entry)
-            reformatted_entry = (
-                self.marker + " " + _indent_entry(reformatted_entry, toplevel_indent)
-            )
-            reformatted_entries.append(reformatted_entry)
+            reformatted_entries.append(_mark_entry(self.marker, reformatted_entry))
 
         return "\n".join(reformatted_entries)
 
@@ -130,12 +129,9 @@ class MarkdownOrderedList(MarkdownSection):
                     entry, get_nested_width(width, toplevel_indent), line_index
                 ).rstrip("\n")
             line_index += len(entry)
-            reformatted_entry = (
-                str(entry_number)
-                + ". "
-                + _indent_entry(reformatted_entry, toplevel_indent)
+            reformatted_entries.append(
+                _mark_entry(str(entry_number) + ".", reformatted_entry)
             )
-            reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
 
-- 
2.43.0


From 8442fe06b93163bda251a0e54d6813f4ed5c7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 45/59] fix: Numbers of more than nine digits don't start list
 entries

They aren't list markers in CommonMark, and numbers of thousands of digits could not
even be converted.
---
 markflow/detectors/_lines.py | 4 ++--
 markflow/detectors/_lists.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 3289eee..423ae05 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -22,10 +22,10 @@ BULLET_LIST_START_REGEX = re.compile(
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r")( |$)"  # Lists need a space or nothing at all after their identifier
 )
-EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)\s*$")
+EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]{1,9}\.)\s*$")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
diff --git a/markflow/detectors/_lists.py b/markflow/detectors/_lists.py
index 117ed8c..aac8df6 100644
--- a/markflow/detectors/_lists.py
+++ b/markflow/detectors/_lists.py
@@ -21,7 +21,7 @@ MARKER_REGEX = re.compile(
     r"\*|"  # Asterisk list marker
     r"-|"  # Dash list marker
     r"\+|"  # Plus list marker
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r")"
     r"($| )"  # End of line or space
 )
-- 
2.43.0


From b9272acb3bdf20fcb1f5ece42e868198b609eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 46/59] fix: Info strings that start with a tilde stay apart
 from their fence

---
 markflow/formatters/fenced_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 9dd800f..5fd729d 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -80,7 +80,11 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.code_lines + [fence]
+        opening_fence = fence + self.language
+        if self.language.startswith(self.fence_char):
+            # Keep the info string from becoming a part of the fence
+            opening_fence = fence + " " + self.language
+        new_lines = [opening_fence] + self.code_lines + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From f80e0330faf73a03180c2f28e2914a5306d7baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 47/59] fix: Whitespace between spaces doesn't make text
 unstable

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0c25c02..059f0f1 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -324,7 +324,7 @@ def space_split(
     leading_spaces: List[bool] = []
     evaluates: List[bool] = []
     for word in text.split(" "):
-        if not word:
+        if not word.strip():
             continue
         split_text.append(word.strip())
         if not leading_spaces:
-- 
2.43.0


From cb8d5a0ee8324e1be95e51a96c6b2b09bf9297bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 48/59] fix: Warnings about fences name their line in the
 document

---
 markflow/detectors/fenced_code_block.py  |  8 --------
 markflow/formatters/fenced_code_block.py | 12 +++++++++++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index df068a5..447bcb4 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -21,7 +21,6 @@ Examples:
 import logging
 from typing import List, Tuple
 
-from .._utils import get_indent
 from ._lines import is_fenced_code_block_end_line, is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
@@ -121,7 +120,6 @@ def split_fenced_code_block(
 
     fence = line.lstrip()[0]
     count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
-    fence_indent = get_indent(line)
     full_fence = fence * count
 
     fenced_code_block.append(line)
@@ -129,12 +127,6 @@ def split_fenced_code_block(
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
         if is_fenced_code_block_end_line(line, full_fence):
-            if get_indent(line) > 3 + fence_indent:
-                logger.warning(
-                    "Detected that the fence on line %d is over indented per the "
-                    "standard. If this is intentional, please file a bug report."
-                    % (index + line_offset + 1)
-                )
             break
 
     remaining_lines = remaining_lines[index + 1 :]
diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 5fd729d..aa81afc 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -32,15 +32,18 @@ before or after.
 https://spec.commonmark.org/0.29/#fenced-code-blocks
 """
 
+import logging
 from typing import List, Optional
 
-from .._utils import truncate_str
+from .._utils import get_indent, truncate_str
 from ..detectors._lines import is_fenced_code_block_end_line
 from ..typing import Number
 from .base import MarkdownSection
 
 __all__ = ["MarkdownFencedCodeBlock"]
 
+logger = logging.getLogger(__name__)
+
 REPR_CONTENT_LEN = 20
 
 
@@ -80,6 +83,13 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
+        is_closed = len(self.code_lines) < len(self.lines) - 1
+        if is_closed and get_indent(self.lines[-1]) > 3 + get_indent(self.lines[0]):
+            logger.warning(
+                "Detected that the fence on line %d is over indented per the standard. "
+                "If this is intentional, please file a bug report.",
+                self.line_index + len(self.lines),
+            )
         opening_fence = fence + self.language
         if self.language.startswith(self.fence_char):
             # Keep the info string from becoming a part of the fence
-- 
2.43.0


From 4780ad010fdb25e713300cb4316658611de1cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 49/59] fix: Warnings about definitions without a link name
 their line in the document

---
 markflow/detectors/link_reference_definition.py  | 8 --------
 markflow/formatters/link_reference_definition.py | 8 ++++++++
 markflow/reformat_markdown.py                    | 3 +++
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index f1c8878..19c3d01 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -23,14 +23,11 @@ Examples:
 """
 
 import itertools
-import logging
 import re
 from typing import List, Tuple
 
 from .._utils import get_indent
 
-logger = logging.getLogger(__name__)
-
 LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"\["  # Open bracket
     r"[^\]]{1,999}"  # At least one and up to 999 characters as the name
@@ -101,11 +98,6 @@ def split_link_reference_definition(
             # According to this standard, this is just paragraph text, but this tool
             # should be usable during development.
             # ToDo: Does that match up with our treatment of misquoted titles?
-            logger.warning(
-                "The text on line %d seems to be a link reference definition, but it "
-                "does not contain a link. We will be treating it as if it were.",
-                index,  # We are just pass where the issue exists
-            )
             link_reference_definition = [lines[0]]
             remaining_lines = lines[1:]
             return link_reference_definition, remaining_lines
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 7a7b6f7..d06bfa9 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -23,6 +23,7 @@ characters inside the square brackets.
 https://spec.commonmark.org/0.29/#link-label
 """
 
+import logging
 import re
 
 from .._utils import split_lines, truncate_str
@@ -32,6 +33,8 @@ from .base import MarkdownSection
 
 __all__ = ["MarkdownLinkReferenceDefinition"]
 
+logger = logging.getLogger(__name__)
+
 POST_COLON_SPACE_REGEX = re.compile(r":\s+")
 REPR_CONTENT_LEN = 20
 LINK_REFERENCE_DEFINITION_REGEX = re.compile(
@@ -85,6 +88,11 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         last_index = 0
         str_ = f"[{self.name}]:"
         if not self.link:
+            logger.warning(
+                "The text on line %d seems to be a link reference definition, but it "
+                "does not contain a link. We will be treating it as if it were.",
+                self.line_index + 1,
+            )
             return str_
 
         if self.link in self.lines[last_index].partition("]:")[2]:
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 8102d76..87c1d9a 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -39,6 +39,9 @@ def _filter_second_pass(record: logging.LogRecord) -> bool:
 
 
 logger.addFilter(_filter_second_pass)
+logging.getLogger(MarkdownLinkReferenceDefinition.__module__).addFilter(
+    _filter_second_pass
+)
 
 
 FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
-- 
2.43.0


From 8835e8c09c59c80f8ec87d0b4050af58aebf9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 50/59] fix: No warnings about headings of the second pass

---
 markflow/reformat_markdown.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 87c1d9a..7e8020e 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -39,9 +39,6 @@ def _filter_second_pass(record: logging.LogRecord) -> bool:
 
 
 logger.addFilter(_filter_second_pass)
-logging.getLogger(MarkdownLinkReferenceDefinition.__module__).addFilter(
-    _filter_second_pass
-)
 
 
 FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
@@ -59,6 +56,9 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
     MarkdownSectionEnum.THEMATIC_BREAK: MarkdownThematicBreak,
 }
 
+for _formatter in FORMATTERS.values():
+    logging.getLogger(_formatter.__module__).addFilter(_filter_second_pass)
+
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
     sections = parse_markdown(split_lines(text))
-- 
2.43.0


From 7cc3b0ad2c3b54789e2349042108eb309c929320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 51/59] fix: end a block quote whose paragraph ended behind a
 lazy line

---
 markflow/detectors/block_quote.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 4b37e97..abcbf84 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -2,7 +2,7 @@ import re
 from functools import lru_cache
 from typing import List, Tuple
 
-from .._utils import redirect_info_logs_to_debug
+from .._utils import get_indent, redirect_info_logs_to_debug
 from ._lines import (
     is_explicit_block_quote_line,
     is_setext_underline,
@@ -115,6 +115,22 @@ def _ends_with_paragraph(lines: Tuple[str, ...]) -> bool:
         return False
 
 
+def _is_paragraph_text(lines: List[str], line_offset: int) -> bool:
+    """Indicates whether the first line behind a lazy line surely is paragraph text
+
+    Lines may have quote markers. Anything but plain text behind those may end the
+    paragraph, and so is left to be looked at together with the lines before it.
+    """
+    line = lines[0]
+    while is_explicit_block_quote_line(line):
+        line = LEADING_QUOTE_MARKER.sub("", line)
+    if line != lines[0]:
+        if get_indent(line) >= 4 or line.lstrip().startswith("["):
+            return False
+        lines = [line] + lines[1:]
+    return _is_paragraph_continuation_text(lines, line_offset)
+
+
 def split_block_quote(
     lines: List[str], line_offset: int = 0
 ) -> Tuple[List[str], List[str]]:
@@ -154,9 +170,7 @@ def split_block_quote(
 
         if check_for_continuation:
             first_line = True
-            while remaining_lines and _is_paragraph_continuation_text(
-                remaining_lines, line_offset
-            ):
+            while remaining_lines and _is_paragraph_text(remaining_lines, line_offset):
                 if first_line:
                     first_line = False
                     if is_setext_underline(
-- 
2.43.0


From 9a599186b4f56916c6ff6f18dad7f4adce34279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 52/59] fix: Keep the white space between text and inline code,
 links and HTML line breaks

Tabs were dropped there, and so were no-break spaces and the like, even though those are
content: `a`<tab>`b` became `a``b`.
---
 markflow/_utils/textwrap.py | 62 ++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 059f0f1..8ea2194 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -1,4 +1,5 @@
 import re
+import string
 from typing import Iterator, List, Match, Tuple
 
 from markflow.typing import Number
@@ -16,14 +17,18 @@ BLOCK_START_REGEX = re.compile(
 )
 TRAILING_BACKSLASH_REGEX = re.compile(r"(?<!\\)(?:\\\\)*\\$")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
+# Other white space, like no-break spaces, is content.
+SPACES = tuple(string.whitespace)
 
 
 def _can_start_line(word: str) -> bool:
     """Indicates whether a line of a paragraph could start with a word
 
     It cannot if the line would no longer be part of the paragraph, e.g. if it looked
-    like a heading or the entry of a list.
+    like a heading or the entry of a list, or if the line would lose its white space.
     """
+    if word[0].isspace():
+        return False
     if word.startswith("```"):
         # This is only inline code if it is also closed
         return "`" in word.lstrip("`")
@@ -62,6 +67,7 @@ def _group_unbreakable(
             _can_start_line(word)
             # A backslash at the end of a line would become a hard line break.
             and not TRAILING_BACKSLASH_REGEX.search(groups[-1])
+            and not groups[-1][-1].isspace()
         ):
             groups.append(word)
             group_spaces.append(leading_space)
@@ -137,12 +143,12 @@ def code_split(
             ):
                 split_text[-1] += "."
                 plaintext = plaintext[1:]
-            if plaintext.strip():
+            if plaintext.strip(string.whitespace):
                 if not leading_spaces:
                     leading_spaces.append(leading_space)
                 else:
-                    leading_spaces.append(plaintext.startswith(" "))
-                split_text.append(plaintext.strip())
+                    leading_spaces.append(plaintext.startswith(SPACES))
+                split_text.append(plaintext.strip(string.whitespace))
                 evaluates.append(True)
             open_marker_len = len(code_marker.group())
 
@@ -150,7 +156,7 @@ def code_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(plaintext.endswith(" "))
+                leading_spaces.append(plaintext.endswith(SPACES))
             evaluates.append(False)
             split_text.append("`" * open_marker_len)
         else:
@@ -169,12 +175,12 @@ def code_split(
     ):
         split_text[-1] += "."
         remaining_text = remaining_text[1:]
-    if remaining_text.strip():
-        split_text.append(remaining_text.strip())
+    if remaining_text.strip(string.whitespace):
+        split_text.append(remaining_text.strip(string.whitespace))
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(remaining_text.startswith(" "))
+            leading_spaces.append(remaining_text.startswith(SPACES))
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -222,7 +228,7 @@ def link_split(
     # link text.
     for match in _links(text):
         non_link_text = text[last_end : match.start()]
-        if non_link_text.strip():
+        if non_link_text.strip(string.whitespace):
             if (
                 split_text
                 and non_link_text.startswith(".")
@@ -230,13 +236,13 @@ def link_split(
             ):
                 split_text[-1] += "."
                 non_link_text = non_link_text[1:]
-            split_text.append(non_link_text.strip())
+            split_text.append(non_link_text.strip(string.whitespace))
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(non_link_text.startswith(" "))
+                leading_spaces.append(non_link_text.startswith(SPACES))
 
-            leading_spaces.append(text[match.start() - 1] == " ")
+            leading_spaces.append(text[match.start() - 1] in SPACES)
             evaluates.append(True)
         else:
             if not leading_spaces:
@@ -251,12 +257,12 @@ def link_split(
         leading_spaces.append(False)
         if "](" in match.group():
             split_link = match.group().split("](", 1)
-            split_text.append(split_link[0].strip() + "](")
-            split_text.append(split_link[1].strip())
+            split_text.append(split_link[0].strip(string.whitespace) + "](")
+            split_text.append(split_link[1].strip(string.whitespace))
         else:
             split_link = match.group().split("][", 1)
-            split_text.append(split_link[0].strip() + "][")
-            split_text.append(split_link[1].strip())
+            split_text.append(split_link[0].strip(string.whitespace) + "][")
+            split_text.append(split_link[1].strip(string.whitespace))
 
         # Don't modify our hyperlink
         evaluates += [True, False]
@@ -270,12 +276,12 @@ def link_split(
     ):
         split_text[-1] += "."
         remaining_text = remaining_text[1:]
-    if remaining_text.strip():
-        split_text.append(remaining_text.strip())
+    if remaining_text.strip(string.whitespace):
+        split_text.append(remaining_text.strip(string.whitespace))
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(remaining_text.startswith(" "))
+            leading_spaces.append(remaining_text.startswith(SPACES))
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -295,23 +301,23 @@ def newline_split(
         if not leading_spaces:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(text[last_end] == " ")
+            leading_spaces.append(text[last_end] in SPACES)
 
-        if non_newline_text.strip():
-            split_text.append(non_newline_text.strip())
+        if non_newline_text.strip(string.whitespace):
+            split_text.append(non_newline_text.strip(string.whitespace))
             evaluates.append(True)
-            leading_spaces.append(non_newline_text.endswith(" "))
+            leading_spaces.append(non_newline_text.endswith(SPACES))
 
         split_text.append(match.group())
         evaluates.append(False)
         last_end = match.end()
 
-    if text[last_end:].strip():
-        split_text.append(text[last_end:].strip())
+    if text[last_end:].strip(string.whitespace):
+        split_text.append(text[last_end:].strip(string.whitespace))
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(text[last_end:].startswith(" "))
+            leading_spaces.append(text[last_end:].startswith(SPACES))
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -324,9 +330,9 @@ def space_split(
     leading_spaces: List[bool] = []
     evaluates: List[bool] = []
     for word in text.split(" "):
-        if not word.strip():
+        if not word.strip(string.whitespace):
             continue
-        split_text.append(word.strip())
+        split_text.append(word.strip(string.whitespace))
         if not leading_spaces:
             leading_spaces.append(leading_space)
         else:
-- 
2.43.0


From 30a21339f26207da6c6b4e6193392dd8dd2fbaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:41 +0000
Subject: [PATCH 53/59] fix: Keep no-break spaces in the title of a link
 reference definition

---
 markflow/formatters/link_reference_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index d06bfa9..8b05aa2 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -36,6 +36,7 @@ __all__ = ["MarkdownLinkReferenceDefinition"]
 logger = logging.getLogger(__name__)
 
 POST_COLON_SPACE_REGEX = re.compile(r":\s+")
+SPACES_REGEX = re.compile(r"[ \t]+")
 REPR_CONTENT_LEN = 20
 LINK_REFERENCE_DEFINITION_REGEX = re.compile(
     r"\["
@@ -78,7 +79,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 "or email jholland@duosecurity.com."
             )
         title = match.group("title")
-        return " ".join(title.split())
+        return SPACES_REGEX.sub(" ", title.strip())
 
     def append(self, line: str) -> None:
         self.lines.append(line)
-- 
2.43.0


From 355c528caa42b0664acd20cb34fe12c52d3d6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 54/59] fix: Keep the title of a link reference definition on
 its line

Its first word does not tell whether it is on the line of the label, which can contain
that word, too.
---
 markflow/formatters/link_reference_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 8b05aa2..72b075a 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -108,7 +108,8 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
 
         # We don't naively wrap link reference definitions because they are allowed to
         # overflow lines (the label and url portions).
-        if title.split()[0] in self.lines[last_index]:
+        line = self.lines[last_index]
+        if len((line if last_index else line.partition("]:")[2]).split()) > 1:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
                 lines = split_lines(str_)
-- 
2.43.0


From 005913b295d7d43a76bfb287b7d7cdfa660c4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:05 +0000
Subject: [PATCH 55/59] fix: escaped brackets are part of a reference's label,
 unescaped ones are not

A definition whose label contains an escaped bracket was not recognised: the
paragraph that follows it was joined to it, which is the end of the definition,
or its title moved to the line of its destination. Text with a stray opening
bracket, which no renderer takes for a definition, was recognised as one.
---
 markflow/detectors/link_reference_definition.py  | 2 +-
 markflow/formatters/link_reference_definition.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 19c3d01..aa228e6 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -30,7 +30,7 @@ from .._utils import get_indent
 
 LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"\["  # Open bracket
-    r"[^\]]{1,999}"  # At least one and up to 999 characters as the name
+    r"(?:\\.|[^\[\]\\]){1,999}"  # At least one and up to 999 characters as the name
     r"\]:"  # End bracket and colon
 )
 QUOTATION_CHARACTERS = "'\""
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 72b075a..b3dec75 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -40,7 +40,7 @@ SPACES_REGEX = re.compile(r"[ \t]+")
 REPR_CONTENT_LEN = 20
 LINK_REFERENCE_DEFINITION_REGEX = re.compile(
     r"\["
-    r"(?P<name>[^\]]{1,999})"
+    r"(?P<name>(?:\\.|[^\[\]\\]){1,999})"
     r"\]:"
     r"\s*"
     r"(?P<link>[^\s]*)"
@@ -87,7 +87,8 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
     def reformatted(self, width: Number = 88) -> str:
         # Last index indicates that last line we checked for content
         last_index = 0
-        str_ = f"[{self.name}]:"
+        label = f"[{self.name}]:"
+        str_ = label
         if not self.link:
             logger.warning(
                 "The text on line %d seems to be a link reference definition, but it "
@@ -96,7 +97,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
             )
             return str_
 
-        if self.link in self.lines[last_index].partition("]:")[2]:
+        if self.link in self.lines[last_index].partition(label)[2]:
             str_ += f" {self.link}"
         else:
             last_index = 1
@@ -109,7 +110,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         # We don't naively wrap link reference definitions because they are allowed to
         # overflow lines (the label and url portions).
         line = self.lines[last_index]
-        if len((line if last_index else line.partition("]:")[2]).split()) > 1:
+        if len((line if last_index else line.partition(label)[2]).split()) > 1:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
                 lines = split_lines(str_)
-- 
2.43.0


From 800ee885a461484c2797aea4388db9a3f2dc183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 56/59] fix: titles of link reference definitions may be in
 parentheses

A definition with such a title was not recognised and was joined with the
definition or the paragraph behind it, which renders as text.
---
 markflow/detectors/link_reference_definition.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index aa228e6..2b92fe2 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -6,8 +6,8 @@ provide a short hand for links. The start with a series of non-whitespace charac
 enclosed in brackets ([]) that serve as the label. It is followed by a colon (:) and
 optional whitespace. That is then followed by a series of non-whitespace characters that
 serve as the link. This can optionally be followed by white-space and then a quotation
-(' or ") enclosed series of characters that serves as the title. Any of the optional
-whitespace may be a new line.
+(' or ") or parentheses enclosed series of characters that serves as the title. Any of
+the optional whitespace may be a new line.
 
 Examples:
     ```
@@ -33,7 +33,8 @@ LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"(?:\\.|[^\[\]\\]){1,999}"  # At least one and up to 999 characters as the name
     r"\]:"  # End bracket and colon
 )
-QUOTATION_CHARACTERS = "'\""
+# The characters that open a title and the ones that close it
+QUOTATION_CHARACTERS = {"'": "'", '"': '"', "(": ")"}
 
 
 def split_link_reference_definition(
@@ -119,7 +120,11 @@ def split_link_reference_definition(
         quotation_character = "NO QUOTE"
 
     if quotation_character in QUOTATION_CHARACTERS:
-        closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
+        closing_character = QUOTATION_CHARACTERS[quotation_character]
+        # Unescaped, the opening character cannot be part of the title, either
+        closing_regex = re.compile(
+            r"(?<!\\)(\\\\)*[{}{}]".format(quotation_character, closing_character)
+        )
         for index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
@@ -128,7 +133,8 @@ def split_link_reference_definition(
                 break
             match = closing_regex.search(line.rstrip())
             if match:
-                if match.end() == len(line.rstrip()):
+                closes = match.group().endswith(closing_character)
+                if closes and match.end() == len(line.rstrip()):
                     end_index = index + 1
                 break
 
-- 
2.43.0


From f05034c466fbc2184e21227ec41292691ddcd3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 57/59] fix: refuse paths that cannot be read before any file
 is written

The permissions that ExistingPath is given were ignored, so files in front of
an unreadable one were reformatted before the run failed.
---
 markflow/_argparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 2abd5a5..19da65a 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,11 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"cannot {permission.verbiage} specified path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From b426068a59fdbfb07fbc6868c92dd4286841c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 58/59] fix: name the file that cannot be decoded

With several files or a directory, the error did not tell which one it is about.
---
 markflow/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 936fcc8..79f7758 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -292,7 +292,12 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        try:
+            old_contents = input_path.read_text()
+        except UnicodeDecodeError as error:
+            # Add file information to our exception
+            error.reason += f" (file: {str(input_path)})"
+            raise
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except (MarkdownFormatException, RuntimeError) as error:
-- 
2.43.0


From ad7057ec1ddbe66ec95667f980fc2a17cb9268ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:19 +0000
Subject: [PATCH 59/59] fix: print the names of reformatted files as they are

---
 markflow/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 79f7758..dda133d 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -63,6 +63,11 @@ def print_markdown(markdown_text: str) -> None:
     console.print(rich.markdown.Markdown(markdown_text))
 
 
+def escape_markdown(text: str) -> str:
+    """Escape text such that it is printed as is by `print_markdown`"""
+    return re.sub(r"([!-/:-@\[-`{-~])", r"\\\1", text)
+
+
 def parse_args(argv: List[str]) -> argparse.Namespace:
     parser = argparse.ArgumentParser(
         description="Make your Markdown sparkle.", add_help=False
@@ -314,9 +319,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
             files_changed += 1
             if not args.check:
                 output_path.write_text(new_contents)
-                print_markdown(f"**reformatted {input_path}**")
+                print_markdown(f"**reformatted {escape_markdown(str(input_path))}**")
             else:
-                print_markdown(f"would reformat {input_path}")
+                print_markdown(f"would reformat {escape_markdown(str(input_path))}")
         else:
             if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
-- 
2.43.0

