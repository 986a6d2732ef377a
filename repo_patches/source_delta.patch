From 56a26bb048c039fc75413e751054e3d54c53da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:54 +0000
Subject: [PATCH 01/41] fix: writes without a position start at the cursor, and
 writes move it

Screen.write(spans) without a cursor raised TypeError, and no write moved
the cursor, although both are documented.
---
 slate/screen.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..0a03119 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -190,7 +190,10 @@ class Screen:
 
             alpha_matrix.append(line)
 
-        for ((x, y), line) in data:
+        end = self.cursor
+
+        for (position, line) in data:
+            x, y = end if position is None else position
             line = list(line)
             last = len(line) - 1
 
@@ -243,6 +246,9 @@ class Screen:
 
                     x, y = next_x, next_y
 
+            end = (x, y + self._scrollback_offset)
+
+        self.cursor = end
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From 320e781a1bf27f69cf554d506599e2800b7ffc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:56 +0000
Subject: [PATCH 02/41] fix: honour force_overwrite

The documented argument was accepted and ignored.
---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 0a03119..f0bc2bc 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -290,7 +290,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     colors = []
-- 
2.43.0


From b3c7137c914da26016a2f4642f753c9ff45a1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:23 +0000
Subject: [PATCH 03/41] fix: draw colors on a full redraw and stop styles from
 leaking

A redraw only joined the characters of the cells: it dropped all colors,
and a style set by one cell went on into the cells after it.
---
 slate/screen.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index f0bc2bc..d13899c 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,17 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _format_cell(cell: tuple[str, Color | None, Color | None]) -> str:
+    """Returns the given cell as self-contained ANSI text."""
+
+    char, foreground, background = cell
+    colors = ";".join(
+        item.ansi for item in (foreground, background) if item is not None
+    )
+
+    return f"\x1b[{colors}m{char}\x1b[0m" if colors else char
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -323,7 +334,7 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(map(_format_cell, row))
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From 1fe2a80cab475b186a34782e69f599528f720627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:25 +0000
Subject: [PATCH 04/41] fix: draw the retained content after a resize, and only
 that

The next draw printed the fill character over the cells that had been
kept, and pending changes outside of the new size were still drawn.
---
 slate/screen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index d13899c..3b22730 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -109,6 +109,9 @@ class Screen:
         cells_append = cells.append
         change_buffer = self._change_buffer.__setitem__
 
+        # Earlier changes may lie outside of the new size
+        self._change_buffer.clear()
+
         for y in range(height):
             row: list[tuple[str, Color | None, Color | None]] = []
 
@@ -128,6 +131,7 @@ class Screen:
                         break
 
                     cells[y][x] = char, fore, back
+                    change_buffer((x, y), _format_cell(cells[y][x]))
 
         self.width = width
         self.height = height
-- 
2.43.0


From 50d2c83a2698fab8ab4576e2f931a783d82aa0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:27 +0000
Subject: [PATCH 05/41] fix: an opaque layer hides the translucent ones written
 before it

The translucent backgrounds below it were still blended on top.
---
 slate/screen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 3b22730..a7d780b 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -257,6 +257,9 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
+                    else:
+                        alpha_matrix[y][x].clear()
+
                     write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
 
                     x, y = next_x, next_y
-- 
2.43.0


From ce8d17e6d36f1df392fddd5b1ab6602476ae7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:30 +0000
Subject: [PATCH 06/41] fix: blend translucent foregrounds over the background

The arguments were swapped, so the text took the (opaque) background's
color, and was sent as a second background.
---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index a7d780b..cf2d511 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -301,7 +301,7 @@ class Screen:
                 bg = blent
 
                 if fg is not None and fg.alpha != 1.0:
-                    fg = _get_blended(fg, bg)
+                    fg = _get_blended(bg, fg, is_background=False)
 
                 has_newline = char.endswith("\n")
                 char = char.rstrip("\n")
-- 
2.43.0


From b043a1c415bed2a2a1c3eff73cdc75afd374f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 07/41] fix: the default terminal background is a background
 color

A translucent background blended over it was sent as a foreground.
---
 slate/screen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index cf2d511..2559eea 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -152,7 +152,7 @@ class Screen:
         self,
         spans: Iterable[Span],
         cursor: tuple[int, int] | None = None,
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes data to the screen at the given cursor position.
@@ -173,7 +173,7 @@ class Screen:
     def write_bulk(
         self,
         data: list[tuple[tuple[int, int], Iterable[Span]]],
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes bulked data to the screen. This function culls any later-overwritten
-- 
2.43.0


From 07003e6ed5ba3c2c688ba7a1b71bcb6a7dba0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 08/41] fix: recognize newlines in styled text

Characters carry their style sequences, so a styled newline was not
recognized and was stored in a cell.
---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 2559eea..4be3928 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -233,7 +233,7 @@ class Screen:
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
-                    if char == "\n":
+                    if span.text[i] == "\n":
                         y += 1
                         continue
 
-- 
2.43.0


From ceb133491308d90b1c650b4281dfbd9ce128b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:38 +0000
Subject: [PATCH 09/41] fix: do not modify the cached characters of a span,
 allow empty ones

A write below the bottom row appended a newline to the list that the span
caches (once more on every write), and failed for an empty span.
---
 slate/screen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 4be3928..7229bf2 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -217,10 +217,11 @@ class Screen:
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
 
-                chars = span.get_characters(exclude_color=True, always_include_sequence=True)
+                # The list is cached by the span, so it must not be modified
+                chars = [*span.get_characters(exclude_color=True, always_include_sequence=True)]
                 chars_len = len(chars)
 
-                if i == last and y - self._scrollback_offset > self.height - 1:
+                if chars and i == last and y - self._scrollback_offset > self.height - 1:
                     self._scrollback_offset = y - self.height + 1
                     chars[-1] = chars[-1] + "\n" 
 
-- 
2.43.0


From 868a9f3f3295d8ecb47452cd2e6926e22006b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 10/41] fix: keep the style of the last character of a
 non-resetting span

get_characters() left its sequences out, so a one-character span with
reset_after=False lost its style altogether.
---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..bf891ab 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -441,10 +441,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From 8c174aebdfcc9e6da117d6466fb9af1da4aea169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 11/41] fix: keep reset_after when a span is mutated

Slicing, splitting and as_bold() and friends turned it back on.
---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index bf891ab..28784ff 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -552,7 +552,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
         """Creates a new Span object, mutated with the given options."""
 
         config = self.attrs
-        config.update(**options)  # type: ignore
+        config.update(**{"reset_after": self.reset_after, **options})  # type: ignore
 
         return self.__class__(**config)
 
-- 
2.43.0


From 54705268fbcd49d1123a8c5ad94652184dd6463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:01 +0000
Subject: [PATCH 12/41] fix: name the unset styles after the attributes they
 unset

Text with the sequences 26, 28, 29 or 54 raised TypeError, as these were
mapped to attributes spans do not have. 25 ends both kinds of blinking.
---
 slate/span.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 28784ff..7ee795b 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -32,13 +32,12 @@ UNSETTERS = {
     "italic": "23",
     "underline": "24",
     "blink": "25",
-    "blink2": "26",
+    "fast_blink": "26",
     "invert": "27",
-    "invisible": "28",
-    "strikethrough": "29",
+    "conceal": "28",
+    "strike": "29",
     "foreground": "39",
     "background": "49",
-    "overline": "54",
 }
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
@@ -206,6 +205,9 @@ def _parse_sequence(
                 if key == "bold":  # no-cov
                     options["dim"] = False
 
+                if key == "blink":
+                    options["fast_blink"] = False
+
             continue
 
         return part
-- 
2.43.0


From c7789d196aef3cbd2f83f910e594773a5dc59f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:24 +0000
Subject: [PATCH 13/41] fix: do not take the sequences 98 and 99 for colors

99 is the library's own "opaque" style; it and everything after it in the
same sequence was swallowed.
---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 7ee795b..f45685b 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -163,7 +163,7 @@ def _parse_sequence(
     for i, part in enumerate(parts):
         if (
             part.isdigit()
-            and int(part) in chain(range(30, 49), range(90, 108))
+            and int(part) in chain(range(30, 49), range(90, 98), range(100, 108))
             and part not in ["39", "49"]
         ):
             in_color = True
-- 
2.43.0


From f4a17aaada5c4da1a0e487abbc39fabc0cd3d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:26 +0000
Subject: [PATCH 14/41] fix: parse alpha values in sequences, and keep them out
 of the output

The look-ahead for an alpha value never looked, so they raised ValueError,
and from_ansi() sent the alpha of 16 and 256 colors back to the terminal.
---
 slate/color.py | 2 +-
 slate/span.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..a7fc123 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -228,7 +228,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=is_background,
             alpha=alpha,
             _origin_colorspace=color_space,
-            _constructor=ansi,
+            _constructor=";".join(parts),
         )
 
     @classmethod
diff --git a/slate/span.py b/slate/span.py
index f45685b..ab6b996 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -119,8 +119,12 @@ def _is_valid_color(body: str) -> bool:
         including the endpoint
     - RGB colors (`38;2;xxx` or `48;2;xxx`)
     - 8-bit colors (`38;5;xxx` or `48;5;xxx`)
+    - Any of the above followed by an alpha value (`38;5;xxx;0.5`)
     """
 
+    if "." in body:
+        body = body.rpartition(";")[0]
+
     if body.isdigit():
         index = int(body)
 
@@ -172,7 +176,7 @@ def _parse_sequence(
             color_buffer += part
 
             if _is_valid_color(color_buffer) and (
-                len(parts) >= i or "." not in parts[i + 1]
+                len(parts) <= i + 1 or "." not in parts[i + 1]
             ):
                 key = (
                     "back" if _is_background_color(color_buffer) else "fore"
-- 
2.43.0


From d34393d556b2e311d0fdc3a118db73720f79f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:02 +0000
Subject: [PATCH 15/41] fix: keep all of the text when parsing ANSI, and
 understand resets

Text before the first sequence was lost, text after a reset and sequences
right after one another raised ValueError, and a reset at the end of the
line came out as text.
---
 slate/span.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index ab6b996..70b1f43 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -42,7 +42,7 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(r"\x1b\[([^\x1b]*?)[mH]")
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -192,6 +192,10 @@ def _parse_sequence(
 
             continue
 
+        if part in ["", "0"]:
+            options.clear()
+            continue
+
         if part in SETTERS_TO_STYLES:
             options[SETTERS_TO_STYLES[part]] = True
             continue
@@ -350,26 +354,22 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def yield_from(cls, line: str) -> Generator[Span, None, None]:
         """Generates Span objects from the given line."""
 
-        # Add trailing ESC char to allow detection by regex
-        if not line.endswith("\x1b"):
-            line += "\x1b"
+        line = line.rstrip("\x1b")
 
         options: dict[str, str | bool | Color | None] = {}
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            if index < mtch.start():
+                yield Span(line[index : mtch.start()], **options)  # type: ignore
+
             index = mtch.end()
-            sequence, plain = mtch.groups()
 
-            if (error_part := _parse_sequence(sequence, options)) is not None:
+            if (error_part := _parse_sequence(mtch[1], options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-            yield Span(plain, **options)  # type: ignore
-
-        line = line.rstrip("\x1b")
-
         if index < len(line):
-            yield Span(line[index:])
+            yield Span(line[index:], **options)  # type: ignore
 
     @classmethod
     def first_from(cls, line: str) -> Span | None:
-- 
2.43.0


From f0f161060c2ba390675e3e1dfdbd8b771683107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:05 +0000
Subject: [PATCH 16/41] fix: do not group characters of different colors

A character equal to the one before it was merged into its group without
looking at the colors, so the SVG export lost them.
---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 70b1f43..f7a2587 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -393,7 +393,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         for char, fg, bg in line:
             # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
+            if str(char) == prev_str and (fg, bg) == (group.foreground, group.background):
                 group = group.mutate(text=group.text + char[-1])
                 continue
 
-- 
2.43.0


From fe1b7e41dc04c66fcd3f2af0158e9ca32d72ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 17/41] fix: export struck-through text to SVG

The style was looked up under a name that spans do not use.
---
 slate/span.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index f7a2587..3bb32b7 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -61,8 +61,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
-    "overline": ("text-decoration", "overline"),
+    "strike": ("text-decoration", "line-through"),
 }
 
 
-- 
2.43.0


From d715d70de578e7e4d39c82774c504dc7b8f160db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:09 +0000
Subject: [PATCH 18/41] fix: inline SVG styles go in the style attribute

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 3bb32b7..c04dd74 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -546,7 +546,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             + f" x='{x}'"
             + f" y='{y + font_size}'"
             + f" fill='{foreground.hex}'"
-            + (f" styles='{styles}'" if inline_styles else "")
+            + (f" style='{styles}'" if inline_styles else "")
             + (f" class='{cls}'" if cls is not None else "")
             + f">{_escape_html(self.text)}</text>"
         )
-- 
2.43.0


From 3014b2a1a74fe4d479676eff89a993676282c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 19/41] fix: the hex form of a color already starts with a hash

The background of the exported SVG had an invalid color (##141414).
---
 slate/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..71ff996 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -453,7 +453,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From 415a6c57801f85593b021fc9efc660422f64f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:33 +0000
Subject: [PATCH 20/41] fix: translate the 16 standard colors to greyscale
 under NO_COLOR too

They were sent as they were, as NO_COLOR ranks above the standard colors.
---
 slate/color.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index a7fc123..8000b24 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -280,8 +280,10 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
-        if terminal.color_space >= origin and (
-            self._constructor is not None and not self._constructor.startswith("#")
+        if (
+            terminal.color_space is not ColorSpace.NO_COLOR
+            and terminal.color_space >= origin
+            and (self._constructor is not None and not self._constructor.startswith("#"))
         ):
             return self._constructor
 
-- 
2.43.0


From d70db0d844dc919aaa1ecbb4205341f09693fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 21/41] fix: let colors follow changes of the color space

The sequence was cached on first use, so colors (Color.white() included)
went on being sent in the old color space.
---
 slate/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 8000b24..7d8317f 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -265,7 +265,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         return WHITE
 
-    @cached_property
+    @property
     def ansi(self) -> str:
         """Returns the ANSI code that represents this color."""
 
-- 
2.43.0


From 8357ce91faae7c9e898db7002750bc196c1233f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:38 +0000
Subject: [PATCH 22/41] fix: send colors given by a bare index as 256 colors

Color.from_ansi("141") was sent as the sequence 141, which is not a color
(and those below 10 set text styles).
---
 slate/color.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 7d8317f..6373bc2 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -210,13 +210,17 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 index -= 40
                 is_background = True
 
-            if 90 <= index < 98:
+            elif 90 <= index < 98:
                 index -= 82
 
             elif 100 <= index < 108:
                 index -= 92
                 is_background = True
 
+            else:
+                color_space = "eight_bit"
+                parts = ["48" if is_background else "38", "5", end]
+
         if not 0 <= index < 256:
             raise ValueError(
                 "Color ANSI index must be between 0 and 256,"
-- 
2.43.0


From 08048a3dc857a77c7bad6457566457251b8ea04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:41 +0000
Subject: [PATCH 23/41] fix: the complement of red is not black

Reds have a hue of 0 as well, not only greys. The complement of a grey
background is a background.
---
 slate/color.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 6373bc2..52f27de 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -338,8 +338,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def complement(self) -> Color:
         """Returns the complement of this color."""
 
-        if self.hls[0] == 0.0:
-            return Color((255, 255, 255)) if self.hls[1] == 0.0 else Color((0, 0, 0))
+        # Without saturation there is no hue to shift
+        if self.hls[2] == 0.0:
+            return (BLACK if self.hls[1] else WHITE).as_background(self.is_background)
 
         return self.hue_shift(0.5)
 
-- 
2.43.0


From 4e84807862b0e1fe4e9182a3d50f6604f3e8ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:15 +0000
Subject: [PATCH 24/41] fix: only take mouse reports for mouse reports

Anything else with two semicolons raised KeyError or IndexError (as did
middle clicks), or, like the reply to the resolution query, was reported
as a mouse event.
---
 slate/core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..657f1e7 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -161,6 +161,8 @@ RE_PALETTE_REPLY = re.compile(
 
 RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\x1b\\)")
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])")
+
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
 feeder_stream = StringIO()
@@ -315,18 +317,16 @@ def parse_mouse_event(code: str) -> str | None:
             mouse:{event_name}@{event_x};{event_y}
     """
 
-    if code == "\x1b" or code.count(";") != 2:
-        return None
+    mtch = RE_MOUSE_EVENT.fullmatch(code)
 
-    sequence = code.lstrip("\x1b[<")
-    event, posx, posy_pressed = sequence.split(";")
+    if mtch is None or mtch[1] not in MOUSE_EVENTS:
+        return None
 
-    posy = posy_pressed[:-1]
-    pressed = posy_pressed[-1] == "M"
+    event, posx, posy, pressed = mtch.groups()
 
     event_name = MOUSE_EVENTS[event]
 
-    if not pressed:
+    if pressed != "M":
         event_name = event_name.replace("click", "release")
 
     return f"mouse:{event_name}@{posx};{posy}"
-- 
2.43.0


From 94581aca5c1ad74ea40b74053019539f27d1c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 25/41] fix: feeding twice does not overwrite what was fed
 first

---
 slate/core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 657f1e7..5c647fc 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -382,7 +382,6 @@ def feed(text: str) -> None:
     """
 
     feeder_stream.write(text)
-    feeder_stream.seek(0)
 
 
 def _getch_posix(  # pylint: disable=used-before-assignment
-- 
2.43.0


From 5576001698c2d1eaeca51d95918d4332903d14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 26/41] fix: restore the tty settings when interrupted right
 after changing them

---
 slate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 5c647fc..74cc887 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -429,11 +429,11 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-    tty.setcbreak(descriptor)
 
     buff = ""
 
     try:
+        tty.setcbreak(descriptor)
         buff += _read(1)
 
         while _is_ready(stream):
-- 
2.43.0


From a69d8a5d6fda53189f199f62aa1c8be5c7618c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:22 +0000
Subject: [PATCH 27/41] fix: use the synchronized update sequences terminals
 understand

Only the query has a dollar sign; the mode itself was never set.
---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 74cc887..ee85056 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -152,8 +152,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From 74dbfaad46874a938757790e85c4a58d61134724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 28/41] fix: the names of the home and end keys were swapped

---
 slate/key_names.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/key_names.py b/slate/key_names.py
index 743214b..9f43ef4 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -61,8 +61,8 @@ POSIX_KEY_NAMES = {  # pylint: disable=cyclic-import
     "\x1b[1;5B": ("ctrl-down",),
     "\x1b[1;5C": ("ctrl-right",),
     "\x1b[1;5D": ("ctrl-left",),
-    "\x1b[H": ("end",),
-    "\x1b[F": ("home",),
+    "\x1b[H": ("home",),
+    "\x1b[F": ("end",),
     "\x1b[2~": ("insert",),
     "\x1b[3~": ("delete",),
     "\x1b[Z": ("shift-tab",),
-- 
2.43.0


From 088bcac60c37d03ca7c303ebe95f77ca4ddd78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:26 +0000
Subject: [PATCH 29/41] fix: do not recurse when a resize listener reads the
 size

---
 slate/terminal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 71ff996..cd025bf 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -144,10 +144,11 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         size = get_terminal_size()
 
-        if self._previous_size is not None and size != self._previous_size:
-            self.on_resize(size)
+        # Listeners may read the size as well
+        previous_size, self._previous_size = self._previous_size, size
 
-        self._previous_size = size
+        if previous_size is not None and size != previous_size:
+            self.on_resize(size)
 
         return size
 
-- 
2.43.0


From 7f906c0a3da1bfe8974ad9ded7a19672767bfed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 30/41] fix: store and restore the terminal's title in pairs

Leaving the alternate buffer restored a title that may never have been
stored, and did not note that it had restored it, so the next title was
not stored. An empty title stored itself over the original.
---
 slate/terminal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index cd025bf..36989e3 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -235,7 +235,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -288,11 +288,13 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """
 
         if new is None:
-            self.write_control(RESTORE_TITLE)
-            self._custom_title = None
+            if self._custom_title is not None:
+                self.write_control(RESTORE_TITLE)
+                self._custom_title = None
+
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From 99b9852883bf450f35ea3e31ee70b0d86a668372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 31/41] fix: do not write a screen.txt on every draw

It was left over from debugging, and made draw() fail in directories that
cannot be written to.
---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 36989e3..5401fa9 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -409,9 +409,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From 93a59081fd4bc6427614aab8dc92374f079708ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:35 +0000
Subject: [PATCH 32/41] fix: accept strings in Terminal.write_bulk, as
 documented

---
 slate/terminal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 5401fa9..fd43fcd 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -376,8 +376,12 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         Returns:
             The number of cells that have been updated as a result of the write.
         """
+
         changes = self._screen.write_bulk(
-            data,
+            [
+                (pos, Span.yield_from(item) if isinstance(item, str) else item)
+                for pos, item in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From 7c3031cf59168de0765c5eb1d1dd95627ead09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:54 +0000
Subject: [PATCH 33/41] fix: do not discard input that was typed between two
 reads

Entering cbreak mode flushed the input queue, also in the middle of an
escape sequence. The replies to queries are now looked for behind it.
---
 slate/core.py     | 5 +++--
 slate/terminal.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index ee85056..a74fb18 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -261,7 +261,7 @@ def get_default_color(
 
     reply = str(resp[0])
 
-    mtch = RE_PALETTE_REPLY.match(reply)
+    mtch = RE_PALETTE_REPLY.search(reply)
     if mtch is None:
         return DEFAULT_COLOR_DEFAULTS[layer]
 
@@ -433,7 +433,8 @@ def _getch_posix(  # pylint: disable=used-before-assignment
     buff = ""
 
     try:
-        tty.setcbreak(descriptor)
+        # The default would discard everything typed since the last call
+        tty.setcbreak(descriptor, termios.TCSADRAIN)
         buff += _read(1)
 
         while _is_ready(stream):
diff --git a/slate/terminal.py b/slate/terminal.py
index fd43fcd..0be5aee 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -200,7 +200,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
                 default=f"\x1b[4;{';'.join(map(str, reversed(self.resolution_fallback)))}t",
             )
         )
-        mtch = RE_PIXEL_SIZE.match(output)
+        mtch = RE_PIXEL_SIZE.search(output)
 
         if mtch is not None:
             return (int(mtch[2]), int(mtch[1]))
-- 
2.43.0


From 0128c14bca6e4a4b33fa11d64227e357f1a7ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:41 +0000
Subject: [PATCH 34/41] fix: clip writes that run over the bottom row in a
 later span

---
 slate/screen.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 7229bf2..360a0bd 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -212,6 +212,9 @@ class Screen:
             line = list(line)
             last = len(line) - 1
 
+            # Only writes that begin below the bottom row scroll the screen
+            starts_below = y - self._scrollback_offset > self.height - 1
+
             for i, span in enumerate(line):
                 foreground, background = span.foreground, span.background
                 background = background
@@ -221,7 +224,12 @@ class Screen:
                 chars = [*span.get_characters(exclude_color=True, always_include_sequence=True)]
                 chars_len = len(chars)
 
-                if chars and i == last and y - self._scrollback_offset > self.height - 1:
+                if (
+                    starts_below
+                    and chars
+                    and i == last
+                    and y - self._scrollback_offset > self.height - 1
+                ):
                     self._scrollback_offset = y - self.height + 1
                     chars[-1] = chars[-1] + "\n" 
 
-- 
2.43.0


From e5bf4e2a7617bcbf9adc0607505a6ed36b21e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 35/41] fix: export both underline and strike to SVG when a
 span has both

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index c04dd74..95b4fba 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -472,7 +472,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
             elif key in STYLE_TO_CSS and value:
                 key, value = STYLE_TO_CSS[key]
-                css[key] = value
+                css[key] = f"{css[key]} {value}" if key in css else value
 
         return css
 
-- 
2.43.0


From 2121033cc2c48e52bef4e0b062dda95247302e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 36/41] fix: do not hand out the cached list of a span's
 characters

---
 slate/span.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 95b4fba..4f8b907 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -420,7 +420,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
         if group is not None:
             yield group
 
-    @lru_cache
     def get_characters(
         self, exclude_color: bool = False, always_include_sequence: bool = False
     ) -> list[str]:
@@ -434,6 +433,15 @@ class Span:  # pylint: disable=too-many-instance-attributes
             A list of strings with the format `{sequences}{plain_character}`.
         """
 
+        # The cached value is shared, so callers get a list of their own
+        return [*self._get_characters(exclude_color, always_include_sequence)]
+
+    @lru_cache
+    def _get_characters(
+        self, exclude_color: bool, always_include_sequence: bool
+    ) -> list[str]:
+        """Implements `get_characters`."""
+
         sequences = self._colorless_sequences if exclude_color else self._sequences
         remaining_sequences = sequences
 
-- 
2.43.0


From 070ffc6674c0e045dc03637668370715c39ba54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:10 +0000
Subject: [PATCH 37/41] fix: do not take typed text without an escape for a
 mouse report

---
 slate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index a74fb18..f99817f 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -521,7 +521,7 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     if raw:
         return Key((key,))
 
-    if event := parse_mouse_event("\x1b" + key.split("\x1b")[-1]):
+    if event := parse_mouse_event("".join(key.rpartition("\x1b")[1:])):
         return Key((event,))
 
     return Key(POSIX_KEY_NAMES.get(key, (key,)))
-- 
2.43.0


From 66c3cec3197a5549c3b61ca5620c86c640f25796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:04 +0000
Subject: [PATCH 38/41] fix: resize the screen before exporting it as an SVG

---
 slate/terminal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 0be5aee..e3ee35c 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -442,6 +442,9 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background_color = default_background or self.background_color
 
+        # Reading the size brings the screen up to date with it
+        columns, rows = self.size
+
         screen, screen_stylesheet = self._screen.export_svg_with_styles(
             origin=(0, 0),
             font_size=font_size,
@@ -452,8 +455,8 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         margin_x = 16
         margin_y = 16
 
-        total_width = self.width * SVG_CHAR_WIDTH * font_size + 2 * margin_x
-        total_height = self.height * SVG_CHAR_HEIGHT * font_size + 2 * margin_y
+        total_width = columns * SVG_CHAR_WIDTH * font_size + 2 * margin_x
+        total_height = rows * SVG_CHAR_HEIGHT * font_size + 2 * margin_y
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-- 
2.43.0


From 7b11e541b85a645135d172513d3cc1f1e255f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:17 +0000
Subject: [PATCH 39/41] fix: a byte that cannot be decoded no longer spoils the
 input after it

---
 slate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index f99817f..d294472 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -399,7 +399,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
     # TODO: Both of these should be proper module-level functions to aviod
     #       constant redefiniton.
     if stream.encoding is not None:
-        decode = getincrementaldecoder(stream.encoding)().decode
+        decode = getincrementaldecoder(stream.encoding)("backslashreplace").decode
 
     else:
 
-- 
2.43.0


From fde9ef6c2ffaefe3a26f05ac9b5eb843ff3d838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:27 +0000
Subject: [PATCH 40/41] fix: F11 and F12 crashed getch on Windows

---
 slate/core.py      | 2 +-
 slate/key_names.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index d294472..aa70614 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -458,7 +458,7 @@ def _getch_nt() -> str:  # no-cov
         """Ensures return value is always a `str` (not `bytes`)."""
 
         if isinstance(string, bytes):
-            return string.decode("utf-8")
+            return string.decode("latin-1")
 
         return string
 
diff --git a/slate/key_names.py b/slate/key_names.py
index 9f43ef4..b15f0c1 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -102,6 +102,6 @@ NT_KEY_NAMES = {
     "\x00B": ("f8",),
     "\x00C": ("f9",),
     "\x00D": ("f10",),
-    "\xe0\x85": ("f11",),
-    "\xe0\x86": ("f12",),
+    "\x1b\x85": ("f11",),
+    "\x1b\x86": ("f12",),
 }
-- 
2.43.0


From 0e63c1b7a194cdceb1235eb73fbcce68f303af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:27 +0000
Subject: [PATCH 41/41] fix: getch returns fed text on Windows, too

---
 slate/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slate/core.py b/slate/core.py
index aa70614..6000f5d 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -465,6 +465,12 @@ def _getch_nt() -> str:  # no-cov
     # We need to type: ignore these on non-windows machines,
     # as the library does not exist.
 
+    if fed_content := feeder_stream.getvalue():
+        feeder_stream.truncate(0)
+        feeder_stream.seek(0)
+
+        return fed_content
+
     # Return empty string if there is no input to get
     if not msvcrt.kbhit():  # type: ignore
         return ""
-- 
2.43.0

