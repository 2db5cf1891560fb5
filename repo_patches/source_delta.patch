From 13d620d8738f18f8881d83204d5e570ab84cde8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 01/39] fix: stop dumping every drawn frame into ./screen.txt

---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..ed63e8b 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -406,9 +406,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From f334bb84ea4213524aa1328cf12c703b3d6862b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:14 +0000
Subject: [PATCH 02/39] fix: honour force_overwrite in Screen.write_bulk

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..03679d3 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -284,7 +284,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     colors = []
-- 
2.43.0


From e54a6c526253ab02c2addcc0fdd298b43785c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:16 +0000
Subject: [PATCH 03/39] fix: don't modify the cached character list when
 scrolling

---
 slate/screen.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 03679d3..2d16117 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -199,12 +199,19 @@ class Screen:
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
 
-                chars = span.get_characters(exclude_color=True, always_include_sequence=True)
+                # Copied, since the result is shared through get_characters' cache
+                chars = [
+                    *span.get_characters(
+                        exclude_color=True, always_include_sequence=True
+                    )
+                ]
                 chars_len = len(chars)
 
                 if i == last and y - self._scrollback_offset > self.height - 1:
                     self._scrollback_offset = y - self.height + 1
-                    chars[-1] = chars[-1] + "\n" 
+
+                    if chars:
+                        chars[-1] = chars[-1] + "\n"
 
                     self._cells.pop(0)
                     self._cells.append([("", None, None)] * self.width)
-- 
2.43.0


From 71060e009c7e641a6cb5ba053650a117c26d40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:18 +0000
Subject: [PATCH 04/39] fix: apply the scrollback offset once per line, with
 non-empty blank cells

---
 slate/screen.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 2d16117..5d57e93 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -192,7 +192,17 @@ class Screen:
 
         for ((x, y), line) in data:
             line = list(line)
-            last = len(line) - 1
+            last_span = len(line) - 1
+
+            y -= self._scrollback_offset
+            scroll = len(line) > 0 and 0 < self.height <= y
+
+            if scroll:
+                self._scrollback_offset += y - self.height + 1
+                y = self.height - 1
+
+                self._cells.pop(0)
+                self._cells.append([(" ", None, None)] * self.width)
 
             for i, span in enumerate(line):
                 foreground, background = span.foreground, span.background
@@ -207,18 +217,10 @@ class Screen:
                 ]
                 chars_len = len(chars)
 
-                if i == last and y - self._scrollback_offset > self.height - 1:
-                    self._scrollback_offset = y - self.height + 1
-
-                    if chars:
-                        chars[-1] = chars[-1] + "\n"
-
-                    self._cells.pop(0)
-                    self._cells.append([("", None, None)] * self.width)
-
-                y -= self._scrollback_offset
+                if scroll and i == last_span and chars:
+                    chars[-1] = chars[-1] + "\n"
 
-                for i, char in enumerate(chars):
+                for j, char in enumerate(chars):
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
@@ -226,7 +228,7 @@ class Screen:
                         y += 1
                         continue
 
-                    last = i == chars_len - 1
+                    last = j == chars_len - 1
 
                     next_x, next_y = x + 1, y
 
-- 
2.43.0


From 6236a23b69c8daf5f67e20ed91b9adae6e0bd15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:53 +0000
Subject: [PATCH 05/39] fix: forget the scrollback offset when the screen is
 cleared

---
 slate/screen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slate/screen.py b/slate/screen.py
index 5d57e93..e36b13c 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -132,6 +132,7 @@ class Screen:
 
         self.resize((self.width, self.height), fillchar, keep_original=False)
         self.cursor = (0, 0)
+        self._scrollback_offset = 0
 
     def write(
         self,
-- 
2.43.0


From 42f37d9a63918113fc314b098df1823eaff49306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:56 +0000
Subject: [PATCH 06/39] fix: continue writing at the screen's last cursor when
 none is given

---
 slate/screen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index e36b13c..1b097d0 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -154,6 +154,9 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
+        if cursor is None:
+            cursor = self.cursor
+
         return self.write_bulk([(cursor, spans)], force_overwrite=force_overwrite, terminal_background=terminal_background)
 
     def write_bulk(
@@ -253,6 +256,8 @@ class Screen:
 
                     x, y = next_x, next_y
 
+            self.cursor = (x, y + self._scrollback_offset)
+
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From e4f22f6abe07e2fb70464543d21e735d8b5a59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:58 +0000
Subject: [PATCH 07/39] fix: redraw kept cells with their content after a
 resize

---
 slate/screen.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 1b097d0..f0fd47e 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,17 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _get_styled(char: str, fore: Color | None, back: Color | None) -> str:
+    """Returns the string that displays the given cell."""
+
+    color = ";".join(item.ansi for item in (fore, back) if item is not None)
+
+    if not color:
+        return char
+
+    return f"\x1b[{color}m{char}\x1b[0m"
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -98,6 +109,9 @@ class Screen:
         cells_append = cells.append
         change_buffer = self._change_buffer.__setitem__
 
+        # Changes pending for the previous size may be outside of the new one
+        self._change_buffer.clear()
+
         for y in range(height):
             row: list[tuple[str, Color | None, Color | None]] = []
 
@@ -117,6 +131,7 @@ class Screen:
                         break
 
                     cells[y][x] = char, fore, back
+                    change_buffer((x, y), _get_styled(char, fore, back))
 
         self.width = width
         self.height = height
@@ -302,16 +317,7 @@ class Screen:
                 if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    colors = []
-                    if fg is not None:
-                        colors.append(fg.ansi)
-                    if bg is not None:
-                        colors.append(bg.ansi)
-                    color = ";".join(colors)
-
-                    if color:
-                        char = f"\x1b[{color}m{char}\x1b[0m"
-
+                    char = _get_styled(char, fg, bg)
                     self._change_buffer[x, y] = char + ("\n" if has_newline else "")
 
                     changes += 1
-- 
2.43.0


From 276d405544eedb60f165595793f3693a6eac54a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 08/39] fix: keep colors when redrawing the whole screen

---
 slate/screen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index f0fd47e..179c84e 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -338,7 +338,9 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(
+                    _get_styled(*cell) for cell in row
+                )
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From 37c896fe1a1d6e6a1d1402eb885954b0a2500bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:24 +0000
Subject: [PATCH 09/39] fix: blend translucent text over its background instead
 of replacing it

---
 slate/screen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 179c84e..32c58d5 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -153,7 +153,7 @@ class Screen:
         self,
         spans: Iterable[Span],
         cursor: tuple[int, int] | None = None,
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes data to the screen at the given cursor position.
@@ -177,7 +177,7 @@ class Screen:
     def write_bulk(
         self,
         data: list[tuple[tuple[int, int], Iterable[Span]]],
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes bulked data to the screen. This function culls any later-overwritten
@@ -307,7 +307,7 @@ class Screen:
                 bg = blent
 
                 if fg is not None and fg.alpha != 1.0:
-                    fg = _get_blended(fg, bg)
+                    fg = _get_blended(bg, fg, is_background=False)
 
                 has_newline = char.endswith("\n")
                 char = char.rstrip("\n")
-- 
2.43.0


From 7ec5ea56b8b28a070351b12ce3a7b1b4d72d082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:26 +0000
Subject: [PATCH 10/39] fix: move to the next row on newlines within styled
 spans

---
 slate/screen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 32c58d5..db2adf0 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -239,11 +239,11 @@ class Screen:
                 if scroll and i == last_span and chars:
                     chars[-1] = chars[-1] + "\n"
 
-                for j, char in enumerate(chars):
+                for j, (plain, char) in enumerate(zip(span.text, chars)):
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
-                    if char == "\n":
+                    if plain == "\n":
                         y += 1
                         continue
 
-- 
2.43.0


From ea935600546ba6d5465e1866169e0aaf4e43592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 11/39] fix: accept strings in Terminal.write_bulk

---
 slate/terminal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ed63e8b..acab017 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -374,7 +374,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             The number of cells that have been updated as a result of the write.
         """
         changes = self._screen.write_bulk(
-            data,
+            [
+                (pos, Span.yield_from(line) if isinstance(line, str) else line)
+                for pos, line in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From bca043add83e418e3b61234fb55b9ab8479ded11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:53 +0000
Subject: [PATCH 12/39] fix: don't double the hash of the exported SVG's
 background color

---
 slate/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index acab017..16efc8d 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -453,7 +453,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From fe719fcb3368aff73dd3919325d49f68ec2900d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:56 +0000
Subject: [PATCH 13/39] fix: use the standard form of the synchronized update
 sequences

---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..b7fcdc6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -152,8 +152,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From fda1aba3b3348855f326f821fe3f6daa71bba7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:58 +0000
Subject: [PATCH 14/39] fix: pair every restored terminal title with exactly
 one stored one

---
 slate/terminal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 16efc8d..6a79dcc 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -234,7 +234,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -287,11 +287,13 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """
 
         if new is None:
-            self.write_control(RESTORE_TITLE)
+            if self._custom_title is not None:
+                self.write_control(RESTORE_TITLE)
+
             self._custom_title = None
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From 975d07c883bde0c9832e3cd14f289e9a6350bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 15/39] fix: allow querying the terminal's size within
 on_resize listeners

---
 slate/terminal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 6a79dcc..044f60d 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -144,11 +144,14 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         size = get_terminal_size()
 
-        if self._previous_size is not None and size != self._previous_size:
-            self.on_resize(size)
+        previous_size = self._previous_size
 
+        # Updated before emitting, as listeners may want to query the size
         self._previous_size = size
 
+        if previous_size is not None and size != previous_size:
+            self.on_resize(size)
+
         return size
 
     @property
-- 
2.43.0


From c9b40eee071db42cfad8005fc281434112f03a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:18 +0000
Subject: [PATCH 16/39] fix: emit inline SVG styles in the style attribute

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..9cf8385 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -541,7 +541,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             + f" x='{x}'"
             + f" y='{y + font_size}'"
             + f" fill='{foreground.hex}'"
-            + (f" styles='{styles}'" if inline_styles else "")
+            + (f" style='{styles}'" if inline_styles else "")
             + (f" class='{cls}'" if cls is not None else "")
             + f">{_escape_html(self.text)}</text>"
         )
-- 
2.43.0


From b476d79619a2a95462d604f92217b9d101a56388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:20 +0000
Subject: [PATCH 17/39] fix: name the unset styles after the span attributes
 they unset

---
 slate/span.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 9cf8385..f990aba 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -32,13 +32,12 @@ UNSETTERS = {
     "italic": "23",
     "underline": "24",
     "blink": "25",
-    "blink2": "26",
+    "fast_blink": "26",
     "invert": "27",
-    "invisible": "28",
-    "strikethrough": "29",
+    "conceal": "28",
+    "strike": "29",
     "foreground": "39",
     "background": "49",
-    "overline": "54",
 }
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
@@ -206,6 +205,10 @@ def _parse_sequence(
                 if key == "bold":  # no-cov
                     options["dim"] = False
 
+                # 25 stops both speeds of blinking
+                if key == "blink":
+                    options["fast_blink"] = False
+
             continue
 
         return part
-- 
2.43.0


From bba3a32d5ba88336d98086c3305218332b0ea74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:22 +0000
Subject: [PATCH 18/39] fix: export strikethrough to SVG, also when combined
 with underline

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index f990aba..c84725e 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -61,7 +61,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
+    "strike": ("text-decoration", "line-through"),
     "overline": ("text-decoration", "overline"),
 }
 
@@ -470,7 +470,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
             elif key in STYLE_TO_CSS and value:
                 key, value = STYLE_TO_CSS[key]
-                css[key] = value
+                css[key] = f"{css[key]} {value}" if key in css else value
 
         return css
 
-- 
2.43.0


From e1fba320f980ef3ac1ab5305edf5e50fe6790e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:24 +0000
Subject: [PATCH 19/39] fix: keep reset_after when deriving a span from another

---
 slate/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slate/span.py b/slate/span.py
index c84725e..987bb20 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -83,6 +83,7 @@ class SpanConfig(TypedDict):
     foreground: Color | None
     background: Color | None
     hyperlink: str
+    reset_after: bool
 
 
 def _escape_html(text: str) -> str:
@@ -341,6 +342,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             "foreground": self.foreground,
             "background": self.background,
             "hyperlink": self.hyperlink,
+            "reset_after": self.reset_after,
         }
 
     @classmethod
-- 
2.43.0


From b37055fd249c8b2776dadb09b87fcce6814131b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 20/39] fix: keep the style of the last character of spans
 without reset_after

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 987bb20..82c41cd 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -446,10 +446,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From ceb73d05141ed08460ee6b949d04d673b08409a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:28 +0000
Subject: [PATCH 21/39] fix: don't group cells of differing colors into the
 same span

---
 slate/span.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 82c41cd..77a1f6d 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -388,14 +388,8 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         group = EMPTY_SPAN
         attrs = EMPTY_SPAN.attrs | {"text": ""}
-        prev_str = ""
 
         for char, fg, bg in line:
-            # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
-                group = group.mutate(text=group.text + char[-1])
-                continue
-
             span = cls.first_from(char)
 
             if span is None:
@@ -414,7 +408,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 yield group
 
             group = span
-            prev_str = str(group.mutate(reset_after=False))
             attrs = new_attrs
 
         if group is not None:
-- 
2.43.0


From 1bbf528298579b17d8d788e8c85e00676b2f30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:18 +0000
Subject: [PATCH 22/39] fix: keep text around resets and before the first
 sequence when parsing spans

---
 slate/span.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 77a1f6d..8cfeb10 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -42,7 +42,7 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(r"\x1b\[(.*?)[mH]")
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -189,6 +189,10 @@ def _parse_sequence(
 
             continue
 
+        if part in ["", "0"]:
+            options.clear()
+            continue
+
         if part in SETTERS_TO_STYLES:
             options[SETTERS_TO_STYLES[part]] = True
             continue
@@ -349,26 +353,23 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def yield_from(cls, line: str) -> Generator[Span, None, None]:
         """Generates Span objects from the given line."""
 
-        # Add trailing ESC char to allow detection by regex
-        if not line.endswith("\x1b"):
-            line += "\x1b"
+        line = line.rstrip("\x1b")
 
         options: dict[str, str | bool | Color | None] = {}
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            if index < mtch.start():
+                yield Span(line[index : mtch.start()], **options)  # type: ignore
+
             index = mtch.end()
-            sequence, plain = mtch.groups()
+            sequence = mtch[1]
 
             if (error_part := _parse_sequence(sequence, options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-            yield Span(plain, **options)  # type: ignore
-
-        line = line.rstrip("\x1b")
-
         if index < len(line):
-            yield Span(line[index:])
+            yield Span(line[index:], **options)  # type: ignore
 
     @classmethod
     def first_from(cls, line: str) -> Span | None:
-- 
2.43.0


From 8cc817d67655fa5a0e0c4715ab88b016f3ae587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:20 +0000
Subject: [PATCH 23/39] fix: parse the alpha value of colors within sequences

---
 slate/span.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 8cfeb10..071bd80 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -122,6 +122,10 @@ def _is_valid_color(body: str) -> bool:
     - 8-bit colors (`38;5;xxx` or `48;5;xxx`)
     """
 
+    # The alpha value can follow any color
+    if "." in body.split(";")[-1]:
+        body = body.rpartition(";")[0]
+
     if body.isdigit():
         index = int(body)
 
@@ -173,7 +177,7 @@ def _parse_sequence(
             color_buffer += part
 
             if _is_valid_color(color_buffer) and (
-                len(parts) >= i or "." not in parts[i + 1]
+                i + 1 >= len(parts) or "." not in parts[i + 1]
             ):
                 key = (
                     "back" if _is_background_color(color_buffer) else "fore"
-- 
2.43.0


From c0096ba978d9a79031b5cf5bb86e37e7df5beae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 24/39] fix: emit indexed colors as valid sequences on the
 layer they describe

---
 slate/color.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..439f4fa 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -180,7 +180,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
         is_background = parts[0].startswith("4")
 
         if len(parts) > 3:
-            if parts[:2] not in [["38", "2"], ["48", "2"]]:
+            if len(parts) != 5 or parts[:2] not in [["38", "2"], ["48", "2"]]:
                 raise ValueError(
                     "Only colors with prefixes `38;2` and `48;2` are allowed,"
                     + f" got {ansi!r}."
@@ -194,8 +194,15 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 _constructor=";".join(parts),
             )
 
+        if len(parts) > 1 and parts[:-1] not in [["38", "5"], ["48", "5"]]:
+            raise ValueError(
+                "Only colors with prefixes `38;5` and `48;5` are allowed,"
+                + f" got {ansi!r}."
+            )
+
         end = parts[-1]
         color_space = "eight_bit"
+        constructor = ";".join(parts)
 
         index = int(end)
 
@@ -210,13 +217,19 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 index -= 40
                 is_background = True
 
-            if 90 <= index < 98:
+            elif 90 <= index < 98:
                 index -= 82
 
             elif 100 <= index < 108:
                 index -= 92
                 is_background = True
 
+            # Anything else is an index within the palette
+            else:
+                color_space = "eight_bit"
+                is_background = False
+                constructor = f"38;5;{index}"
+
         if not 0 <= index < 256:
             raise ValueError(
                 "Color ANSI index must be between 0 and 256,"
@@ -228,7 +241,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=is_background,
             alpha=alpha,
             _origin_colorspace=color_space,
-            _constructor=ansi,
+            _constructor=constructor,
         )
 
     @classmethod
-- 
2.43.0


From 9fd6ea3a002ca3010c3b00c24883654e094a085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:24 +0000
Subject: [PATCH 25/39] fix: convert standard colors to greyscale when NO_COLOR
 is set

---
 slate/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 439f4fa..b33fefb 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -293,7 +293,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
-        if terminal.color_space >= origin and (
+        if terminal.color_space is not ColorSpace.NO_COLOR and terminal.color_space >= origin and (
             self._constructor is not None and not self._constructor.startswith("#")
         ):
             return self._constructor
-- 
2.43.0


From 611b6f87f03c08310dd2c6dae5b3a46f4b6c7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:26 +0000
Subject: [PATCH 26/39] fix: follow color space changes in the codes of
 existing colors

---
 slate/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index b33fefb..d832ef0 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -278,7 +278,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         return WHITE
 
-    @cached_property
+    @property
     def ansi(self) -> str:
         """Returns the ANSI code that represents this color."""
 
-- 
2.43.0


From 1ef6a76c3186036ae83f85513e90a14d7b463b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 27/39] fix: keep the layer and alpha of complementary and hue
 shifted colors

---
 slate/color.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index d832ef0..aa5b28e 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -346,7 +346,11 @@ class Color:  # pylint: disable = too-many-instance-attributes
         """Returns the complement of this color."""
 
         if self.hls[0] == 0.0:
-            return Color((255, 255, 255)) if self.hls[1] == 0.0 else Color((0, 0, 0))
+            return Color(
+                (255, 255, 255) if self.hls[1] == 0.0 else (0, 0, 0),
+                is_background=self.is_background,
+                alpha=self.alpha,
+            )
 
         return self.hue_shift(0.5)
 
@@ -417,6 +421,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
         return Color(
             (int(255 * rgb[0]), int(255 * rgb[1]), int(255 * rgb[2])),
             is_background=self.is_background,
+            alpha=self.alpha,
         )
 
     @lru_cache
-- 
2.43.0


From d1c751ada5749139b0a6f0fbaf0b02909e3a79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:31 +0000
Subject: [PATCH 28/39] fix: apply any alpha given to as_background

---
 slate/color.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index aa5b28e..c265412 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -400,10 +400,13 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def as_background(self, setting: bool = True, alpha: int | None = None) -> Color:
         """Returns this color, with the given background setting."""
 
-        if self.is_background == setting:
+        if alpha is None:
+            alpha = self.alpha
+
+        if self.is_background == setting and self.alpha == alpha:
             return self
 
-        return Color(self.rgb, is_background=setting, alpha=alpha or self.alpha)
+        return Color(self.rgb, is_background=setting, alpha=alpha)
 
     def hue_shift(self, amount: float) -> Color:
         """Returns a color with a hue offset of the given amount.
-- 
2.43.0


From cddc88449b4ba057f7c2c36aad0c73ff70f23bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:33 +0000
Subject: [PATCH 29/39] fix: don't fail on input that looks similar to mouse
 events

---
 slate/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index b7fcdc6..8584705 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -159,6 +159,8 @@ RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
 )
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<[0-9]+;[0-9]+;[0-9]+[Mm]")
+
 RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\x1b\\)")
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
@@ -315,7 +317,7 @@ def parse_mouse_event(code: str) -> str | None:
             mouse:{event_name}@{event_x};{event_y}
     """
 
-    if code == "\x1b" or code.count(";") != 2:
+    if RE_MOUSE_EVENT.fullmatch(code) is None:
         return None
 
     sequence = code.lstrip("\x1b[<")
@@ -324,6 +326,9 @@ def parse_mouse_event(code: str) -> str | None:
     posy = posy_pressed[:-1]
     pressed = posy_pressed[-1] == "M"
 
+    if event not in MOUSE_EVENTS:
+        return None
+
     event_name = MOUSE_EVENTS[event]
 
     if not pressed:
-- 
2.43.0


From f9ca367fe8cbb70edcc4dad906d5e91363a5d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:35 +0000
Subject: [PATCH 30/39] fix: unswap the home and end keys

---
 slate/key_names.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/key_names.py b/slate/key_names.py
index 743214b..9f43ef4 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -61,8 +61,8 @@ POSIX_KEY_NAMES = {  # pylint: disable=cyclic-import
     "\x1b[1;5B": ("ctrl-down",),
     "\x1b[1;5C": ("ctrl-right",),
     "\x1b[1;5D": ("ctrl-left",),
-    "\x1b[H": ("end",),
-    "\x1b[F": ("home",),
+    "\x1b[H": ("home",),
+    "\x1b[F": ("end",),
     "\x1b[2~": ("insert",),
     "\x1b[3~": ("delete",),
     "\x1b[Z": ("shift-tab",),
-- 
2.43.0


From 5a4dbe616ee44eaf80c20f14d7b6b5a40ef2d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:38 +0000
Subject: [PATCH 31/39] fix: restore the previous alarm handler after a timeout

---
 slate/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 8584705..51eb2e7 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -367,9 +367,10 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     def _raise_timeout(sig: int, frame: Any) -> None:
         raise TimeoutException("The action has timed out.")
 
+    # set the timeout handler
+    previous_handler = signal.signal(signal.SIGALRM, _raise_timeout)
+
     try:
-        # set the timeout handler
-        signal.signal(signal.SIGALRM, _raise_timeout)
         signal.setitimer(signal.ITIMER_REAL, duration)
         yield
 
@@ -379,6 +380,10 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     finally:
         signal.alarm(0)
 
+        # None means it was not set from Python, so we couldn't restore it
+        if previous_handler is not None:
+            signal.signal(signal.SIGALRM, previous_handler)
+
 
 def feed(text: str) -> None:
     """Feeds some text to be read by `getch`.
-- 
2.43.0


From 1ed4ce525f6be5524fb52c0a3efb5c84b94baf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 32/39] fix: keep previously fed text that hasn't been read yet

---
 slate/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slate/core.py b/slate/core.py
index 51eb2e7..75f6afd 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -391,6 +391,7 @@ def feed(text: str) -> None:
     This can be used to manually "interrupt" an ongoing getch call.
     """
 
+    feeder_stream.seek(0, os.SEEK_END)
     feeder_stream.write(text)
     feeder_stream.seek(0)
 
-- 
2.43.0


From 0e8ccfa52e0190874aec1273c6b79092fa9d18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 33/39] fix: accept any truthy value from event listeners

A listener returning a true value other than a bool or number made the
emission fail with a TypeError, so later listeners were never called.
---
 slate/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/event.py b/slate/event.py
index fd7ad49..190f306 100644
--- a/slate/event.py
+++ b/slate/event.py
@@ -52,7 +52,7 @@ class Event(Generic[T]):
         output = False
 
         for callback in self._listeners:
-            output |= callback(data) or False
+            output |= bool(callback(data))
 
         return output
 
-- 
2.43.0


From 047a617794ba81e6b62b4ccfbebeca01c2995540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 34/39] fix: refuse uncallable listeners in Event.append too

---
 slate/event.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/event.py b/slate/event.py
index 190f306..8051668 100644
--- a/slate/event.py
+++ b/slate/event.py
@@ -32,9 +32,6 @@ class Event(Generic[T]):
         return len(self._listeners) > 0
 
     def __iadd__(self, callback: Callable[[T], bool]) -> Event[T]:
-        if not callable(callback):
-            raise ValueError(f"Invalid type for callback: {callback}")
-
         self.append(callback)
 
         return self
@@ -59,6 +56,9 @@ class Event(Generic[T]):
     def append(self, callback: Callable[[T], bool]) -> Callable[[T], bool]:
         """Adds a new listener."""
 
+        if not callable(callback):
+            raise ValueError(f"Invalid type for callback: {callback}")
+
         self._listeners.append(callback)
         return callback
 
-- 
2.43.0


From 75466f2816edd5f186a026220a21e401e1836410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 35/39] fix: print spans in the color space in effect when
 they're printed

The sequences were generated once, when the span was created, and the split
characters kept in a cache, so both ignored later changes to the terminal's
color space. The cached list was also shared between all callers.
---
 slate/screen.py |  2 +-
 slate/span.py   | 23 +++++++----------------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index db2adf0..0c9b409 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -228,7 +228,7 @@ class Screen:
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
 
-                # Copied, since the result is shared through get_characters' cache
+                # Copied, since the last one might be changed below
                 chars = [
                     *span.get_characters(
                         exclude_color=True, always_include_sequence=True
diff --git a/slate/span.py b/slate/span.py
index 071bd80..43e7e2c 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -3,8 +3,7 @@
 from __future__ import annotations
 
 import re
-from dataclasses import dataclass, field, fields
-from functools import lru_cache
+from dataclasses import dataclass, fields
 from itertools import chain
 from typing import Any, Generator, Iterable, TypedDict
 from html import escape
@@ -251,12 +250,9 @@ class Span:  # pylint: disable=too-many-instance-attributes
     opaque: bool = False
     reset_after: bool = True
 
-    _computed: str = field(init=False)
-    _sequences: str = field(init=False)
-    _colorless_sequences: str = field(init=False)
-
-    def __post_init__(self) -> None:
-        sequences, colorless_sequences = self._generate_sequences()
+    def __str__(self) -> str:
+        # Not kept, since it depends on the terminal's current color space
+        sequences, _ = self._generate_sequences()
         reset_end = "\x1b[0m" if self.reset_after and sequences != "" else ""
 
         combined = sequences + self.text + reset_end
@@ -264,12 +260,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
         if self.hyperlink != "":
             combined = f"\x1b]8;;{self.hyperlink}\x1b\\{combined}\x1b]8;;\x1b\\"
 
-        object.__setattr__(self, "_computed", combined)
-        object.__setattr__(self, "_sequences", sequences)
-        object.__setattr__(self, "_colorless_sequences", colorless_sequences)
-
-    def __str__(self) -> str:
-        return self._computed
+        return combined
 
     def __len__(self) -> int:
         return len(self.text)
@@ -418,7 +409,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
         if group is not None:
             yield group
 
-    @lru_cache
     def get_characters(
         self, exclude_color: bool = False, always_include_sequence: bool = False
     ) -> list[str]:
@@ -432,7 +422,8 @@ class Span:  # pylint: disable=too-many-instance-attributes
             A list of strings with the format `{sequences}{plain_character}`.
         """
 
-        sequences = self._colorless_sequences if exclude_color else self._sequences
+        total, colorless = self._generate_sequences()
+        sequences = colorless if exclude_color else total
         remaining_sequences = sequences
 
         chars = []
-- 
2.43.0


From b7e971a38851b5a746dc0a3ae6252f0c2b0821eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:00 +0000
Subject: [PATCH 36/39] fix: parse the opaque style's own code instead of
 taking it for a color

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 43e7e2c..66cd218 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -167,7 +167,7 @@ def _parse_sequence(
     for i, part in enumerate(parts):
         if (
             part.isdigit()
-            and int(part) in chain(range(30, 49), range(90, 108))
+            and int(part) in chain(range(30, 49), range(90, 98), range(100, 108))
             and part not in ["39", "49"]
         ):
             in_color = True
-- 
2.43.0


From f504613aa3f74a6628f56409a96ccc316e9bf711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 37/39] fix: don't take text without an escape character for a
 mouse event

---
 slate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 75f6afd..8f98786 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -532,7 +532,7 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     if raw:
         return Key((key,))
 
-    if event := parse_mouse_event("\x1b" + key.split("\x1b")[-1]):
+    if event := parse_mouse_event(key[max(key.rfind("\x1b"), 0) :]):
         return Key((event,))
 
     return Key(POSIX_KEY_NAMES.get(key, (key,)))
-- 
2.43.0


From 4108566e1b68ecbdb2124d29a3a969db886f4086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:05 +0000
Subject: [PATCH 38/39] fix: forget translucent layers that a later write
 covers

---
 slate/screen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 0c9b409..6d761b8 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -267,6 +267,10 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
+                    # Nothing below shows through, including what was blended in before
+                    else:
+                        alpha_matrix[y][x].clear()
+
                     write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
 
                     x, y = next_x, next_y
-- 
2.43.0


From b506b1bbf0251467e5d871af553bd6aeee83b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:42 +0000
Subject: [PATCH 39/39] fix: stop reading a key when the input has ended

---
 slate/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 8f98786..49fa0b8 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -426,6 +426,10 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         while len(buff) < count:
             char = os.read(stream.fileno(), 1)
 
+            # The input has ended
+            if not char:
+                break
+
             try:
                 buff += decode(char)
             except UnicodeDecodeError:
@@ -449,7 +453,12 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         buff += _read(1)
 
         while _is_ready(stream):
-            buff += _read(1)
+            char = _read(1)
+
+            if not char:
+                break
+
+            buff += char
 
     finally:
         # reset terminal state, set echo on
-- 
2.43.0

