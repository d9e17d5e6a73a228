From f6493918461326af4b91be1a452aabf8dd4396ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 01/65] fix: keep strikethrough text translatable in po2md

---
 src/mdpo/po2md/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..da64933 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -84,6 +84,8 @@ class Po2Md:
         'latexmath_end_string',
         'latexmath_display_start_string',
         'latexmath_display_end_string',
+        'strikethrough_start_string',
+        'strikethrough_end_string',
 
         # Public class properties
         'current_msgid',
@@ -240,6 +242,19 @@ class Po2Md:
             md4c.SpanType.CODE.value: self.code_end_string,
         }
 
+        if 'strikethrough' in self.extensions:
+            self.strikethrough_start_string = kwargs.get(
+                'strikethrough_start_string', '~~',
+            )
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_start_string
+
+            self.strikethrough_end_string = kwargs.get(
+                'strikethrough_end_string', '~~',
+            )
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_end_string
+
         self.wikilink_start_string = '[['
         self.wikilink_end_string = ']]'
 
-- 
2.43.0


From 75a8b85e3b69998394a90f64a1c46b181dada410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 02/65] fix: translate math spans inside link texts in po2md

---
 src/mdpo/po2md/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index da64933..9c09eac 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -779,7 +779,10 @@ class Po2Md:
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
         elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_start_string
+            else:
+                self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -873,7 +876,10 @@ class Po2Md:
 
             self._current_imgspan = {}
         elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_end_string
+            else:
+                self.current_msgid += self.latexmath_end_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
-- 
2.43.0


From e509f064f86730534f15e88f9e314c7004f0863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 03/65] fix: look up link texts with line breaks as md2po
 extracts them

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9c09eac..58e9540 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -902,7 +902,9 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if self._inside_liblock and text == '\n':
+                if (
+                    self._inside_liblock or self._inside_aspan
+                ) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
                     self._current_imgspan['text'] = text
-- 
2.43.0


From 10ac7b970ff838f5276ea34aa568fca276d25854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 04/65] fix: delimit code spans with backticks inside link
 texts

---
 src/mdpo/md2po/__init__.py | 21 ++++++++++++++-------
 src/mdpo/po2md/__init__.py | 29 ++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..a5d1ebc 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -740,7 +740,10 @@ class Md2Po:
             # will be escaped
             #
             # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -883,14 +886,18 @@ class Md2Po:
                         backticks = (
                             self._codespan_backticks * self.code_start_string
                         )
-                        self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
-                        )
+                        index = self._codespan_start_index
                         if self._inside_aspan:
-                            self._current_aspan_text += text
+                            self._current_aspan_text = (
+                                f'{self._current_aspan_text[:index]}'
+                                f'{backticks}'
+                                f'{self._current_aspan_text[index:]}{text}'
+                            )
                             return
+                        self.current_msgid = (
+                            f'{self.current_msgid[:index]}{backticks}'
+                            f'{self.current_msgid[index:]}'
+                        )
                     elif self._inside_aspan:
                         self._current_aspan_text += text
                         return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 58e9540..94ac783 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -766,7 +766,10 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -840,9 +843,11 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
+            backticks = self._codespan_backticks * self.code_end_string
+            if self._inside_aspan:
+                self._current_aspan_text += backticks
+            else:
+                self.current_msgid += backticks
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
@@ -914,14 +919,20 @@ class Po2Md:
                         self.code_start_string,
                         text,
                     ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
+                    backticks = (
+                        self._codespan_backticks * self.code_start_string
                     )
+                    index = self._codespan_start_index
                     if self._inside_aspan:
-                        self._current_aspan_text += text
+                        self._current_aspan_text = (
+                            f'{self._current_aspan_text[:index]}{backticks}'
+                            f'{self._current_aspan_text[index:]}{text}'
+                        )
                         return
+                    self.current_msgid = (
+                        f'{self.current_msgid[:index]}{backticks}'
+                        f'{self.current_msgid[index:]}'
+                    )
                 elif self._inside_aspan:
                     self._current_aspan_text += text
                     return
-- 
2.43.0


From 6e085fce71b865ac99e98088a30d2c06e1075174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 05/65] fix: do not fail in po2md on quotes without text

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 94ac783..3a373f9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -708,7 +708,7 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines and self.outputlines[-1] == '>':
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
-- 
2.43.0


From 90ab8b3f24f6ecb980a109d0a3aac61868fed190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 06/65] fix: keep HTML blocks at the end of the document in
 po2md

---
 src/mdpo/po2md/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3a373f9..8c76134 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1023,6 +1023,9 @@ class Po2Md:
             self.leave_span,
             self.text,
         )
+        if self.current_line.strip():  # HTML block at the end
+            self.current_line = self.current_line.rstrip('\n') + '\n'
+            self._save_current_line()
         self._append_link_references()  # add link references to the end
 
         self.disable_next_block = False
-- 
2.43.0


From f34ef200838e5316b779472d1a82ee9f85680d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 07/65] fix: reproduce every line of code blocks inside quotes
 and lists in po2md

---
 src/mdpo/po2md/__init__.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 8c76134..533fbbe 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -474,7 +474,7 @@ class Po2Md:
                 ]):
                     translation += '\n'
 
-        if translation.rstrip('\n'):
+        if translation.rstrip('\n') or self._inside_codeblock:
             self.current_line += translation
 
         self.current_msgid = ''
@@ -637,20 +637,35 @@ class Po2Md:
             self._save_current_msgid()
             self._inside_codeblock = False
 
-            indent = ''
+            indent = '> ' if self._inside_quoteblock else ''
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
-            self._save_current_line()
-            if not self._inside_indented_codeblock:
+            if self.current_line:
+                if self._inside_indented_codeblock:
+                    content = self.current_line.rstrip('\n')
+                else:
+                    # the last line break is the one before the fence
+                    content = self.current_line[
+                        :-1 if self.current_line.endswith('\n') else None
+                    ]
+                self.current_line = '\n'.join(
+                    f'{indent}{line}' if line else indent.rstrip()
+                    for line in content.split('\n')
+                )
+                self._save_current_line()
+            blank_line = '>' if self._inside_quoteblock else ''
+            if self._inside_indented_codeblock:
+                self.current_line = blank_line
+            else:
                 fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
+                self.current_line = f'{indent}{fence_chars}'
 
             self._save_current_line()
             # prevent two newlines after indented code block
             if not self._inside_liblock and (
                     not self._inside_indented_codeblock
             ):
+                self.current_line = blank_line
                 self._save_current_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
@@ -959,10 +974,6 @@ class Po2Md:
                     return
                 self.current_msgid += text
             else:
-                if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
                 self.current_msgid += text
         elif not self._process_command(text):
             self.current_line += text
-- 
2.43.0


From 588036b2ff569d0b57dd82c0c2708401a3b7c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 08/65] fix: use fences longer than those inside code blocks in
 po2md

---
 src/mdpo/po2md/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 533fbbe..aabbf88 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -640,7 +640,21 @@ class Po2Md:
             indent = '> ' if self._inside_quoteblock else ''
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
+            fence_char = details['fence_char']
+            fence_chars = fence_char * 3 if fence_char else ''
             if self.current_line:
+                # the fence must be longer than those in the content
+                while fence_char and any(
+                    line.lstrip().startswith(fence_chars)
+                    for line in self.current_line.split('\n')
+                ):
+                    fence_chars += fence_char
+                if len(fence_chars) > 3 and self.outputlines:  # noqa: PLR2004
+                    before, _, info = self.outputlines[-1].rpartition(
+                        fence_char * 3,
+                    )
+                    self.outputlines[-1] = f'{before}{fence_chars}{info}'
+
                 if self._inside_indented_codeblock:
                     content = self.current_line.rstrip('\n')
                 else:
@@ -657,7 +671,6 @@ class Po2Md:
             if self._inside_indented_codeblock:
                 self.current_line = blank_line
             else:
-                fence_chars = details['fence_char'] * 3
                 self.current_line = f'{indent}{fence_chars}'
 
             self._save_current_line()
-- 
2.43.0


From cdde78a47afff465bfd70f990643051cbbc98b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 09/65] fix: save the text of the item before ordered lists
 nested in it

---
 src/mdpo/po2md/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index aabbf88..76d7cd9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -568,6 +568,11 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
+            if self._current_list_type and (
+                self._current_list_type[-1][0] == 'ul'
+            ):
+                self._save_current_msgid()
+                self._save_current_line()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-- 
2.43.0


From 92d6598299b0c0e351690db8869dbdd430c109d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 10/65] fix: save the text of tight list items before the
 blocks that follow it

---
 src/mdpo/md2po/__init__.py |  7 +++++++
 src/mdpo/po2md/__init__.py | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index a5d1ebc..c212e2f 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -573,6 +573,13 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_block', self, block, details):
             return
 
+        if self.current_msgid and block in {
+            md4c.BlockType.CODE, md4c.BlockType.H,
+            md4c.BlockType.HR, md4c.BlockType.HTML,
+        }:
+            # text of the tight list item which contains the block
+            self._save_current_msgid()
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
             if not any([
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 76d7cd9..a4a919c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -505,6 +505,15 @@ class Po2Md:
         ):
             return
 
+        if self._inside_liblock and self.current_msgid and block in {
+            md4c.BlockType.H, md4c.BlockType.HR, md4c.BlockType.HTML,
+        }:
+            # text of the tight list item which contains the block
+            self._save_current_msgid()
+            self._save_current_line()
+            if block is not md4c.BlockType.HR:
+                self.current_line = '   ' * len(self._current_list_type)
+
         if (
             self._inside_quoteblock
             and (not self.current_line or self.current_line[0] != '>')
@@ -533,6 +542,9 @@ class Po2Md:
                     self.current_line += details['lang'][0][1]
             else:
                 self._inside_indented_codeblock = True
+                if self._inside_liblock and not self._inside_quoteblock:
+                    # can't interrupt a paragraph
+                    self._save_current_line()
 
             if self.current_line:
                 self._save_current_line()
@@ -662,6 +674,10 @@ class Po2Md:
 
                 if self._inside_indented_codeblock:
                     content = self.current_line.rstrip('\n')
+                    if self._inside_liblock and (
+                        self._current_list_type[-1][0] == 'ul'
+                    ):
+                        indent = indent[:-1]
                 else:
                     # the last line break is the one before the fence
                     content = self.current_line[
@@ -698,6 +714,9 @@ class Po2Md:
                 self.current_line += '> '
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
+            if self.current_msgid and not self.current_line:
+                # text after other blocks of the list item
+                self.current_line = '   ' * len(self._current_list_type)
             self._save_current_msgid()
             self._inside_liblock = False
             if self.current_line:
-- 
2.43.0


From 655356c658ba8faadd0c8b9826d5f4fb42922e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 11/65] fix: keep the whole alternative text of images with
 markup inside

---
 src/mdpo/md2po/__init__.py | 16 +++++++++++++++-
 src/mdpo/po2md/__init__.py | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c212e2f..597d4ec 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -701,6 +701,11 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
+        if self._current_imgspan:  # span inside the text of an image
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['nested'] += 1
+            return
+
         # underline spans for double '_' character enters two times
         if not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
@@ -759,6 +764,7 @@ class Md2Po:
             self._current_imgspan['title'] = '' if not details['title'] \
                 else details['title'][0][1]
             self._current_imgspan['text'] = ''
+            self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
@@ -776,6 +782,13 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+        if self._current_imgspan:
+            if span is not md4c.SpanType.IMG:
+                return
+            if self._current_imgspan['nested']:
+                self._current_imgspan['nested'] -= 1
+                return
+
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 self.current_msgid += self._current_wikilink_target
@@ -881,7 +894,8 @@ class Md2Po:
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        # markup of the alternative text is not rendered
+                        self._current_imgspan['text'] += text
                         return
                     if self._inside_codespan:
                         # fix backticks for codespan start and end to escape
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a4a919c..f9916b8 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -787,6 +787,11 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:  # span inside the text of an image
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['nested'] += 1
+            return
+
         with contextlib.suppress(KeyError):
             if self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
@@ -831,6 +836,7 @@ class Po2Md:
                 else details['title'][0][1]
             self._current_imgspan['src'] = details['src'][0][1]
             self._current_imgspan['text'] = ''
+            self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
         elif span is md4c.SpanType.LATEXMATH:
@@ -852,6 +858,13 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:
+            if span is not md4c.SpanType.IMG:
+                return
+            if self._current_imgspan['nested']:
+                self._current_imgspan['nested'] -= 1
+                return
+
         if span is md4c.SpanType.WIKILINK:
             self.current_msgid += polib.escape(self._current_wikilink_target)
             self._current_wikilink_target = None
@@ -964,7 +977,8 @@ class Po2Md:
                 ) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    # markup of the alternative text is not rendered
+                    self._current_imgspan['text'] += text
                     return
                 if self._inside_codespan:
                     self._codespan_backticks = min_not_max_chars_in_a_row(
-- 
2.43.0


From d397527972274ca08fac45f958e88cc9a0af3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 12/65] fix: delimit code spans by their whole content

---
 src/mdpo/md2po/__init__.py | 52 ++++++++++++++------------------------
 src/mdpo/po2md/__init__.py | 48 +++++++++++++++--------------------
 src/mdpo/text.py           | 25 ++++++++++++++++++
 3 files changed, 65 insertions(+), 60 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 597d4ec..fb51922 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -29,7 +29,7 @@ from mdpo.po import (
     po_escaped_string,
     remove_not_found_entries,
 )
-from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
+from mdpo.text import delimited_codespan, parse_wrapwidth_argument
 
 
 class Md2Po:
@@ -129,7 +129,6 @@ class Md2Po:
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -378,7 +377,6 @@ class Md2Po:
         self._uls_deep = 0
 
         self._codespan_start_index = None
-        self._codespan_backticks = None
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -830,18 +828,26 @@ class Md2Po:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self._codespan_start_index = None
 
-            # add backticks at the end for escape internal backticks
+            # fix the delimiters to escape internal backticks
+            index = self._codespan_start_index
             if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
+                self._current_aspan_text = (
+                    self._current_aspan_text[:index] + delimited_codespan(
+                        self._current_aspan_text[index + 1:-1],
+                        self.code_start_string,
+                        self.code_end_string,
+                    )
                 )
             else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
+                self.current_msgid = (
+                    self.current_msgid[:index] + delimited_codespan(
+                        self.current_msgid[index + 1:-1],
+                        self.code_start_string,
+                        self.code_end_string,
+                    )
                 )
-            self._codespan_backticks = None
+            self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = details['src'][0][1]
@@ -897,31 +903,11 @@ class Md2Po:
                         # markup of the alternative text is not rendered
                         self._current_imgspan['text'] += text
                         return
-                    if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        index = self._codespan_start_index
-                        if self._inside_aspan:
-                            self._current_aspan_text = (
-                                f'{self._current_aspan_text[:index]}'
-                                f'{backticks}'
-                                f'{self._current_aspan_text[index:]}{text}'
-                            )
-                            return
-                        self.current_msgid = (
-                            f'{self.current_msgid[:index]}{backticks}'
-                            f'{self.current_msgid[index:]}'
-                        )
-                    elif self._inside_aspan:
+                    if self._inside_aspan:
                         self._current_aspan_text += text
                         return
+                    if self._inside_codespan:
+                        pass
                     elif text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f9916b8..601fc9e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -21,7 +21,7 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
-    min_not_max_chars_in_a_row,
+    delimited_codespan,
     parse_wrapwidth_argument,
 )
 
@@ -113,7 +113,6 @@ class Po2Md:
         '_inside_codespan',
         '_inside_latexmath_display',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_current_aspan_ref_target',
@@ -302,7 +301,6 @@ class Po2Md:
 
         self._inside_codespan = False
         self._codespan_start_index = None
-        self._codespan_backticks = None
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
@@ -908,12 +906,25 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            backticks = self._codespan_backticks * self.code_end_string
+
+            # fix the delimiters to escape internal backticks
+            index = self._codespan_start_index
             if self._inside_aspan:
-                self._current_aspan_text += backticks
+                self._current_aspan_text = (
+                    self._current_aspan_text[:index] + delimited_codespan(
+                        self._current_aspan_text[index + 1:-1],
+                        self.code_start_string,
+                        self.code_end_string,
+                    )
+                )
             else:
-                self.current_msgid += backticks
-            self._codespan_backticks = None
+                self.current_msgid = (
+                    self.current_msgid[:index] + delimited_codespan(
+                        self.current_msgid[index + 1:-1],
+                        self.code_start_string,
+                        self.code_end_string,
+                    )
+                )
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = details['src'][0][1]
@@ -980,28 +991,11 @@ class Po2Md:
                     # markup of the alternative text is not rendered
                     self._current_imgspan['text'] += text
                     return
-                if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    backticks = (
-                        self._codespan_backticks * self.code_start_string
-                    )
-                    index = self._codespan_start_index
-                    if self._inside_aspan:
-                        self._current_aspan_text = (
-                            f'{self._current_aspan_text[:index]}{backticks}'
-                            f'{self._current_aspan_text[index:]}{text}'
-                        )
-                        return
-                    self.current_msgid = (
-                        f'{self.current_msgid[:index]}{backticks}'
-                        f'{self.current_msgid[index:]}'
-                    )
-                elif self._inside_aspan:
+                if self._inside_aspan:
                     self._current_aspan_text += text
                     return
+                if self._inside_codespan:
+                    pass
                 elif text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..ada63e7 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -60,6 +60,31 @@ def min_not_max_chars_in_a_row(char, text, default=1):
     return response
 
 
+def delimited_codespan(content, start_char='`', end_char='`'):
+    """Build the Markdown code span with a content.
+
+    The delimiters are as long as needed to not be confused with the
+    characters of the content, which is padded with spaces if it starts or
+    ends with a delimiter character or with spaces that would be stripped.
+
+    Args:
+        content (str): Content of the code span.
+        start_char (str): Character of the opening delimiter.
+        end_char (str): Character of the closing delimiter.
+
+    Returns:
+        str: Code span, including its delimiters.
+    """
+    length = min_not_max_chars_in_a_row(start_char, content)
+    if content.strip(' ') and (
+        content.startswith(start_char)
+        or content.endswith(start_char)
+        or (content.startswith(' ') and content.endswith(' '))
+    ):
+        content = f' {content} '
+    return f'{start_char * length}{content}{end_char * length}'
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0


From 895cd33b889bb1839b209ab7534672b98b27ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 13/65] fix: compare titles and wikilink targets as md2po does
 in po2md

---
 src/mdpo/po2md/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 601fc9e..ef4726c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -864,7 +864,7 @@ class Po2Md:
                 return
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
+            self.current_msgid += self._current_wikilink_target
             self._current_wikilink_target = None
 
         if self._inside_aspan:  # span inside link text
@@ -929,7 +929,7 @@ class Po2Md:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = details['src'][0][1]
             if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+                imgspan_title = details['title'][0][1]
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -947,7 +947,7 @@ class Po2Md:
             else:
                 img_markup += f'({imgspan_src}'
                 if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
+                    img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
 
             if self._inside_aspan:
-- 
2.43.0


From 0f6d09197633dd17141e795144d7f4ea4cca2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 14/65] fix: keep whole, empty and spaced destinations of links

---
 src/mdpo/md2po/__init__.py | 32 +++++++++++++++-------------
 src/mdpo/md4c.py           | 26 +++++++++++++++++++++++
 src/mdpo/po2md/__init__.py | 43 ++++++++++++++++++++++----------------
 3 files changed, 69 insertions(+), 32 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index fb51922..9a3c6c6 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -22,6 +22,8 @@ from mdpo.md import parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
+    attribute_text,
+    link_destination,
 )
 from mdpo.po import (
     find_entry_in_entries,
@@ -692,7 +694,7 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(details['title'][0][1])
+            self._save_msgid(attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -725,11 +727,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -758,15 +760,16 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+            self._current_imgspan['src'] = attribute_text(details['src'])
+            self._current_imgspan['title'] = attribute_text(
+                details['title'],
+            )
             self._current_imgspan['text'] = ''
             self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -811,8 +814,9 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                title = attribute_text(details['title'])
+                href = attribute_text(details['href'])
+                if href and self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -820,9 +824,9 @@ class Md2Po:
                     self.current_msgid += '>'
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
-                        f'[{self._current_aspan_text}]({href}{title_part})'
+                        f'[{self._current_aspan_text}]'
+                        f'({link_destination(href)}{title_part})'
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -850,9 +854,9 @@ class Md2Po:
             self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -868,7 +872,7 @@ class Md2Po:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
+                img_markup += f'({link_destination(imgspan_src)}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index 2bd1543..eb993b4 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -27,3 +27,29 @@ READABLE_BLOCK_NAMES = {
     9: 'paragraph',
     10: 'table',
 }
+
+
+def attribute_text(attribute):
+    """Return the whole text of an attribute of a span or block.
+
+    Attributes are splitted by md4c in several parts if they contain entities.
+
+    Args:
+        attribute (list): Attribute as given by md4c, or ``None``.
+
+    Returns:
+        str: Text of the attribute.
+    """
+    return ''.join(text for _, text in attribute or ())
+
+
+def link_destination(destination):
+    """Return the Markdown representation of the destination of a link.
+
+    Args:
+        destination (str): Destination of a link or an image.
+
+    Returns:
+        str: Destination, inside ``<`` and ``>`` if it contains spaces.
+    """
+    return f'<{destination}>' if ' ' in destination else destination
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ef4726c..52e2fea 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,11 @@ from mdpo.command import (
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import parse_link_references
-from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
+from mdpo.md4c import (
+    DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
+    attribute_text,
+    link_destination,
+)
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     po_escaped_string,
@@ -537,7 +541,7 @@ class Po2Md:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
                 if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                    self.current_line += attribute_text(details['lang'])
             else:
                 self._inside_indented_codeblock = True
                 if self._inside_liblock and not self._inside_quoteblock:
@@ -802,11 +806,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -830,13 +834,14 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['title'] = attribute_text(
+                details['title'],
+            )
+            self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
             self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH:
             if self._inside_aspan:
                 self._current_aspan_text += self.latexmath_start_string
@@ -884,22 +889,24 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
+            elif self._current_aspan_href and (
+                self._current_aspan_text == self._current_aspan_href
+            ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
-                    self.current_msgid += f' "{escaped_title}"'
+                    title = polib.escape(attribute_text(details['title']))
+                    self.current_msgid += f' "{title}"'
                 self.current_msgid += '>'
-            elif self._current_aspan_href:
+            else:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
+                    f'({link_destination(self._current_aspan_href)}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
-                    self.current_msgid += f' "{escaped_title}"'
+                    title = polib.escape(attribute_text(details['title']))
+                    self.current_msgid += f' "{title}"'
                 self.current_msgid += ')'
             self._current_aspan_href = None
             self._inside_aspan = False
@@ -927,9 +934,9 @@ class Po2Md:
                 )
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -945,7 +952,7 @@ class Po2Md:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
+                img_markup += f'({link_destination(imgspan_src)}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
-- 
2.43.0


From 84d73218799654228e528ccf47d7325be4103128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 15/65] fix: compare entries with plural forms and contexts
 named '0'

---
 src/mdpo/polib.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8147d1e 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,29 +38,30 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
         return -1
-    msgid_plural = self.msgid_plural or '0'
-    othermsgid_plural = other.msgid_plural or '0'
+    msgid_plural = self.msgid_plural or ''
+    othermsgid_plural = other.msgid_plural or ''
     if msgid_plural > othermsgid_plural:
         return 1
     if msgid_plural < othermsgid_plural:
         return -1
-    msgstr_plural = self.msgstr_plural or '0'
-    othermsgstr_plural = other.msgstr_plural or '0'
-    if msgstr_plural > othermsgstr_plural:
-        return 1
-    if msgstr_plural < othermsgstr_plural:
-        return -1
     if self.msgid > other.msgid:
         return 1
     if self.msgid < other.msgid:
         return -1
     if compare_msgstr:
+        # dictionaries can't be ordered
+        msgstr_plural = sorted((self.msgstr_plural or {}).items())
+        othermsgstr_plural = sorted((other.msgstr_plural or {}).items())
+        if msgstr_plural > othermsgstr_plural:
+            return 1
+        if msgstr_plural < othermsgstr_plural:
+            return -1
         if self.msgstr > other.msgstr:
             return 1
         if self.msgstr < other.msgstr:
-- 
2.43.0


From e51e74e7b44e22535a86b9bcbeeb03a0f964c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 16/65] fix: reject signed and padded NaNs as wrap widths

---
 src/mdpo/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index ada63e7..54141b5 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -1,5 +1,6 @@
 """Text utilities for mdpo."""
 
+import math
 import os
 import sys
 
@@ -151,10 +152,9 @@ def parse_strint_0_inf(value):
     Args:
         value (str): Value to parse.
     """
-    if isinstance(value, str) and value.lower() == 'nan':
-        raise ValueError(f"invalid strict converting of '{value}' to number")
-
     num = float(value)
+    if math.isnan(num):
+        raise ValueError(f"invalid strict converting of '{value}' to number")
     try:
         return int(num) if num > 0 else INFINITE_WRAPWIDTH
     except OverflowError:  # cannot convert float infinity to integer
-- 
2.43.0


From fc06a46398f29ac565da49db833d2af5091e2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 17/65] fix: do not fail restoring variables removed from the
 environment

---
 src/mdpo/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..b5a4d21 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -15,7 +15,7 @@ def environ(**env):
     finally:
         for key, value in original_env.items():
             if value is None:
-                del os.environ[key]
+                os.environ.pop(key, None)
             else:
                 os.environ[key] = value
 
-- 
2.43.0


From 3b16315250f4be26a94992f1a04304a9921cc951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 18/65] fix: do not add messages for references without
 definition

---
 src/mdpo/md.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..2745a66 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -131,6 +131,9 @@ def solve_link_reference_targets(translations):
                     break
 
         # store in solutions
-        solutions[new_msgid] = new_msgstr
+        if new_msgid is not None:
+            solutions[new_msgid] = (
+                orig_msgstr if new_msgstr is None else new_msgstr
+            )
 
     return solutions
-- 
2.43.0


From 7d81816d7b05afb65b30fb83d7fa40f7176bfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 19/65] fix: do not repeat the tags of links at the ends of
 blocks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..5532a3a 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -284,8 +284,12 @@ class MdPo2HTML(HTMLParser):
                     html_before_first_replacement.split(f'<{tag}>')[0]
                 html_after_last_replacement = \
                     html_after_last_replacement.split(f'</{tag}>')[-1]
-            html_before_first_replacement = \
-                html_before_first_replacement.split('<a href="')[0]
+        for tag in self.link_tags:
+            for sep in (' ', '>'):
+                html_before_first_replacement = \
+                    html_before_first_replacement.split(f'<{tag}{sep}')[0]
+            html_after_last_replacement = \
+                html_after_last_replacement.split(f'</{tag}>')[-1]
 
         html_inner = '\n'.join(
             self.html_renderer.parse(replacement).split('\n')[:-1],
-- 
2.43.0


From dfa62b69686a0259ac00673a3887b6be31a4ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 20/65] fix: leave blocks without translation as they were in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5532a3a..7cc1b44 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -71,6 +71,7 @@ class MdPo2HTML(HTMLParser):
         self.output = ''
         self.replacer = []
         self._raw_replacement = ''
+        self._original_html = ''
         self.context = []
         self.current_msgctxt = None
 
@@ -250,11 +251,11 @@ class MdPo2HTML(HTMLParser):
 
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
-            replacement = _current_replacement
+            replacement = None
 
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=replacement,
+                    msgid=_current_replacement,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
@@ -266,8 +267,6 @@ class MdPo2HTML(HTMLParser):
                 ].get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
-            if not replacement:
-                replacement = _current_replacement
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
@@ -291,14 +290,17 @@ class MdPo2HTML(HTMLParser):
             html_after_last_replacement = \
                 html_after_last_replacement.split(f'</{tag}>')[-1]
 
-        html_inner = '\n'.join(
-            self.html_renderer.parse(replacement).split('\n')[:-1],
-        )
-        html_inner = '>'.join(html_inner.split('>')[1:])
-        html_inner = '<'.join(html_inner.split('<')[:-1])
+        if replacement:
+            html_inner = '\n'.join(
+                self.html_renderer.parse(replacement).split('\n')[:-1],
+            )
+            html_inner = '>'.join(html_inner.split('>')[1:])
+            html_inner = '<'.join(html_inner.split('<')[:-1])
 
-        html_template = html_before_first_replacement + html_inner + \
-            html_after_last_replacement
+            html_template = html_before_first_replacement + html_inner + \
+                html_after_last_replacement
+        else:
+            html_template = self._original_html
 
         if self.merge_adjacent_markups:
             html_template = self._merge_adyacent_tags(
@@ -308,6 +310,7 @@ class MdPo2HTML(HTMLParser):
 
         self.output += html_template
         self.context = []
+        self._original_html = ''
 
         self.disable_next_block = False
         self.enable_next_block = False
@@ -340,6 +343,7 @@ class MdPo2HTML(HTMLParser):
                 self.translations.update(self.real_link_reference_targets)
 
             self.replacer.append(('start', tag, OrderedDict(attrs)))
+            self._original_html += self.get_starttag_text()
             self.context.append(tag)
 
     def handle_endtag(self, tag):
@@ -352,11 +356,13 @@ class MdPo2HTML(HTMLParser):
             self.output += f'</{tag}>'
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
+            self._original_html += f'</{tag}>'
             self._process_replacer()
         elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
+            self._original_html += f'</{tag}>'
             if self.context:
                 self.context.pop()
 
@@ -366,6 +372,7 @@ class MdPo2HTML(HTMLParser):
             self.output += self.get_starttag_text()
         else:
             self.replacer.append(('startend', tag, OrderedDict(attrs)))
+            self._original_html += self.get_starttag_text()
 
     def handle_data(self, data):
 
@@ -380,6 +387,7 @@ class MdPo2HTML(HTMLParser):
             ):
                 self.output += data
             else:
+                self._original_html += html.escape(data, quote=False)
                 if self.context:
                     data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
@@ -388,6 +396,7 @@ class MdPo2HTML(HTMLParser):
 
         if self.replacer:
             self.replacer.append(('comment', data, None))
+            self._original_html += f'<!--{data}-->'
         else:
             data_as_comment = f'<!--{data}-->'
             command, comment = parse_mdpo_html_command(
-- 
2.43.0


From b862c3709e5003164e4b1f4683935a273b17eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 21/65] fix: translate every block and keep everything else in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 113 +++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 7cc1b44..7d4b63e 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -26,6 +26,8 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+GROUPER_TAGS = ['ul', 'ol', 'blockquote', 'table', 'thead', 'tbody', 'tr']
+VOID_TAGS = ['area', 'br', 'col', 'hr', 'img', 'input', 'source', 'wbr']
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -150,6 +152,18 @@ class MdPo2HTML(HTMLParser):
         if not split_output[-1]:
             self.output = '\n'.join(split_output)[:-1]
 
+    def _flush_replacer(self):
+        # tags and texts that do not belong to a block are written as they are
+        self.output += self._original_html
+        self._original_html = ''
+        self.replacer = []
+        self.context = []
+
+    def _inside_ignored_grouper(self):
+        return (
+            self.context and self.context[0] in self.ignore_grouper_tags
+        )
+
     def _process_replacer(self):
 
         template_tags = []
@@ -178,7 +192,7 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                     raw_html_template += f'<{handled}{attrs_repr}>'
-                elif handled in self.link_tags:
+                elif handled in self.link_tags and 'href' in attrs:
                     title, href = attrs.get('title'), attrs['href']
                     _current_link_target += f'({href}'
                     if title:
@@ -233,7 +247,7 @@ class MdPo2HTML(HTMLParser):
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
                 if handled in self.image_tags:
-                    alt, src = attrs.get('alt', ''), attrs['src']
+                    alt, src = attrs.get('alt', ''), attrs.get('src', '')
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
@@ -248,6 +262,9 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         _current_replacement = html.unescape(_current_replacement)
+        if not _current_replacement.strip():
+            self._flush_replacer()
+            return
 
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
@@ -255,18 +272,20 @@ class MdPo2HTML(HTMLParser):
 
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=_current_replacement,
+                    msgid=_current_replacement.strip(),
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
             )
         else:
-            if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
-            else:
-                replacement = self.translations.get(_current_replacement)
+            translations = (
+                self.translations_with_msgctxt.get(self.current_msgctxt, {})
+                if self.current_msgctxt else self.translations
+            )
+            replacement = (
+                translations.get(_current_replacement)
+                or translations.get(_current_replacement.strip())
+            )
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
@@ -318,22 +337,26 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
-        if tag in self.ignore_grouper_tags:
+        if tag in VOID_TAGS:
+            self.handle_startendtag(tag, attrs)
+        elif self._inside_ignored_grouper():
+            if tag in self.ignore_grouper_tags:
+                self.context.append(tag)
+            self.output += self.get_starttag_text()
+        elif tag in self.ignore_grouper_tags:
+            self._flush_replacer()
             self.context.append(tag)
-            attrs_repr = (
-                f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-            )
-            self.output += f'<{tag}{attrs_repr}>'
-        elif (
-            (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
-            or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
-        ):
-            attrs_repr = (
-                f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-            )
-            self.output += f'<{tag}{attrs_repr}>'
+            self.output += self.get_starttag_text()
+        elif tag in GROUPER_TAGS:
+            if self.context and self.context[0] == 'li':
+                # list item with other blocks after its text
+                self._process_replacer()
+            self._flush_replacer()
+            self.output += self.get_starttag_text()
         else:
+            if tag in PROCESS_REPLACER_TAGS:
+                self._flush_replacer()
+
             if tag == 'a' and self.real_link_reference_targets is None:
                 # extend translations to populate link reference msgid-msgstrs
                 # with real targets
@@ -348,17 +371,16 @@ class MdPo2HTML(HTMLParser):
 
     def handle_endtag(self, tag):
 
-        if tag in self.ignore_grouper_tags:
+        if self._inside_ignored_grouper():
             self.output += f'</{tag}>'
-            if self.context:
+            if tag in self.ignore_grouper_tags:
                 self.context.pop()
-        elif self.context and self.context[0] in self.ignore_grouper_tags:
-            self.output += f'</{tag}>'
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._original_html += f'</{tag}>'
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in GROUPER_TAGS or tag in self.ignore_grouper_tags:
+            self._flush_replacer()
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
@@ -368,6 +390,8 @@ class MdPo2HTML(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
 
+        if not self.context:
+            self._flush_replacer()
         if not self.replacer:
             self.output += self.get_starttag_text()
         else:
@@ -377,23 +401,30 @@ class MdPo2HTML(HTMLParser):
     def handle_data(self, data):
 
         if data:
-            if (
-                not self.replacer
-                or (
-                    self.context
-                    and self.context[0] in self.ignore_grouper_tags
-                )
-                or not self.context
-            ):
-                self.output += data
+            data_html = (
+                data if self.cdata_elem else html.escape(data, quote=False)
+            )
+            if not self.context:
+                self._flush_replacer()
+            if not self.replacer or self._inside_ignored_grouper():
+                self.output += data_html
             else:
-                self._original_html += html.escape(data, quote=False)
-                if self.context:
-                    data = data.replace('\n', ' ')
+                self._original_html += data_html
+                data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
+    def handle_decl(self, decl):
+        self._flush_replacer()
+        self.output += f'<!{decl}>'
+
+    def handle_pi(self, data):
+        self._flush_replacer()
+        self.output += f'<?{data}>'
+
     def handle_comment(self, data):
 
+        if not self.context:
+            self._flush_replacer()
         if self.replacer:
             self.replacer.append(('comment', data, None))
             self._original_html += f'<!--{data}-->'
@@ -447,6 +478,8 @@ class MdPo2HTML(HTMLParser):
         )
 
         self.feed(content)
+        self.close()
+        self._flush_replacer()
 
         if save:
             if self._saved_files_changed is False:
-- 
2.43.0


From 312cc30365865156a3e52ad0e76718d0c7ed2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 22/65] fix: apply commands to the next message across blocks
 without messages

---
 src/mdpo/md2po/__init__.py | 12 ++++++++----
 src/mdpo/po2md/__init__.py | 22 ++++++++++++++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 9a3c6c6..f4a452f 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -490,11 +490,13 @@ class Md2Po:
                         flags=['fuzzy'] if fuzzy else [],
                     ),
                 )
-        self.disable_next_block = False
-        self.enable_next_block = False
+
+            # without message, the commands refer to the next one
+            self.disable_next_block = False
+            self.enable_next_block = False
+            self.current_tcomment = None
+            self.current_msgctxt = None
         self.current_msgid = ''
-        self.current_tcomment = None
-        self.current_msgctxt = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
@@ -944,6 +946,8 @@ class Md2Po:
         if self.link_references:
             self.disable_next_block = False
             self.disable = False
+            self.current_msgctxt = None
+            self.current_tcomment = None
 
             # 'link_reference' event
             pre_events = self.events.get('link_reference')
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 52e2fea..67aa5f0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -368,6 +368,9 @@ class Po2Md:
                 self.current_msgctxt = comment
             elif mdpo_command == 'mdpo-translator':
                 self.current_tcomment = comment
+            elif mdpo_command == 'mdpo-include':
+                # the previous commands refer to the included message
+                self._discard_commands()
 
     def _process_command(self, text):
         original_command, comment = parse_mdpo_html_command(text)
@@ -411,6 +414,13 @@ class Po2Md:
             )
             return msgstr or msgid
 
+    def _discard_commands(self):
+        self.current_msgctxt = None
+        self.current_tcomment = None
+
+        self.disable_next_block = False
+        self.enable_next_block = False
+
     def _save_current_msgid(self):
         # raise 'msgid' event
         if raise_skip_event(
@@ -425,7 +435,9 @@ class Po2Md:
         ):
             return
 
-        if (not self.disable and not self.disable_next_block) or \
+        if not self.current_msgid:
+            translation = ''
+        elif (not self.disable and not self.disable_next_block) or \
                 self.enable_next_block:
             translation = self._translate_msgid(
                 self.current_msgid,
@@ -479,12 +491,10 @@ class Po2Md:
         if translation.rstrip('\n') or self._inside_codeblock:
             self.current_line += translation
 
+        if self.current_msgid:
+            # without message, the commands refer to the next one
+            self._discard_commands()
         self.current_msgid = ''
-        self.current_msgctxt = None
-        self.current_tcomment = None
-
-        self.disable_next_block = False
-        self.enable_next_block = False
 
         self._codespan_inside_current_msgid = False
         self._aimg_title_inside_current_msgid = False
-- 
2.43.0


From 0c26f7528711a21cd520b9ace1f1f46093e44a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 23/65] fix: separate HTML that follows commands in the same
 block in po2md

---
 src/mdpo/po2md/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 67aa5f0..e14d770 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -786,6 +786,8 @@ class Po2Md:
                 self.current_line += '\n'
             else:
                 self.current_line = self.current_line.rstrip('\n')
+                if self.current_line.strip('> '):  # not only commands
+                    self.current_line += '\n\n'
             self._inside_htmlblock[0] = False
 
     def enter_span(self, span, details):
-- 
2.43.0


From 44c8325be6d174cf4847fffb050d926e420c8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 24/65] fix: read every command of a line and keep the HTML
 around them

---
 src/mdpo/command.py        | 14 ++++++++++++++
 src/mdpo/md2po/__init__.py |  4 +++-
 src/mdpo/po2md/__init__.py |  7 +++++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 2b24866..41bab51 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -41,6 +41,20 @@ def parse_mdpo_html_command(value):
     return (None, None)
 
 
+def split_html_comments(text):
+    """Split a text separating its HTML comments.
+
+    Args:
+        text (str): HTML text.
+
+    Returns:
+        list: Parts of the text, being each HTML comment a part.
+    """
+    import re
+    parts = re.split(r'(<!--.*?-->)', text)
+    return [part for part in parts if part.strip()] or [text]
+
+
 def normalize_mdpo_command(value):
     """Normalize a valid command and returns None if the command is invalid.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index f4a452f..f24d0f8 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -10,6 +10,7 @@ import polib
 from mdpo.command import (
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
+    split_html_comments,
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
@@ -940,7 +941,8 @@ class Md2Po:
             ):
                 self.current_msgid += text
         else:
-            self._process_command(text)
+            for part in split_html_comments(text):
+                self._process_command(part)
 
     def _dump_link_references(self):
         if self.link_references:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e14d770..11b2bd0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -9,6 +9,7 @@ import polib
 from mdpo.command import (
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
+    split_html_comments,
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
@@ -1039,8 +1040,10 @@ class Po2Md:
                 self.current_msgid += text
             else:
                 self.current_msgid += text
-        elif not self._process_command(text):
-            self.current_line += text
+        else:
+            for part in split_html_comments(text):
+                if not self._process_command(part):
+                    self.current_line += part
 
     def _append_link_references(self):
         if self.link_references:
-- 
2.43.0


From 84f000b0ffdd5c2e7b674f6a7f3f584867c3ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 25/65] fix: check the PO files given in po2md and mdpo2html

---
 src/mdpo/mdpo2html/__main__.py | 11 ++++++++---
 src/mdpo/po2md/__main__.py     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..0bea1db 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -129,7 +129,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -152,7 +152,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -169,8 +169,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..4438792 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -153,7 +153,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -176,7 +176,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -193,8 +193,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From ed82abc1fcb2147409b481358a745d4f92e2cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 26/65] fix: do not fail checking PO files that do not exist in
 md2po

---
 src/mdpo/md2po/__main__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 5f390e0..0f2ec3b 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -6,6 +6,7 @@ See :ref:`md2po CLI<cli:md2po>`.
 """
 
 import argparse
+import os
 import sys
 
 from mdpo.cli import (
@@ -239,9 +240,14 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and md2po._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = [
+            po_filepath for po_filepath in (opts.po_filepath,)
+            if po_filepath and os.path.isfile(po_filepath)
+        ]
+
         if opts.no_obsolete:
             locations = list(check_obsolete_entries_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -258,7 +264,7 @@ def run(args=frozenset()):
 
         if opts.no_fuzzy:
             locations = list(check_fuzzy_entries_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -276,7 +282,7 @@ def run(args=frozenset()):
 
         if opts.no_empty_msgstr:
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From a1f54c5381cda29042e72c647d90beaca0409bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 27/65] fix: mark as obsolete exactly the messages not found

---
 src/mdpo/po.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..8a5b2af 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,20 +63,22 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    for i, entry in reversed(list(enumerate(pofile))):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
+                compare_msgstr=False,
                 compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
-                pofile.remove(entry)
+                del pofile[i]
             else:
                 entry.obsolete = True
                 obsolete = True
@@ -93,23 +95,14 @@ def remove_not_found_entries(pofile, entries):
             entries will be removed.
         entries (list): Entries to search against.
     """
-    entries_to_remove = []
-    for entry in pofile:
+    for i, entry in reversed(list(enumerate(pofile))):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
-            _equal_not_obsolete_found = find_entry_in_entries(
-                entry,
-                entries,
-                compare_obsolete=False,
-                compare_occurrences=False,
-            )
-            if not _equal_not_obsolete_found:
-                entries_to_remove.append(entry)
-    for entry in entries_to_remove:
-        pofile.remove(entry)
+            del pofile[i]
 
 
 def pofiles_to_unique_translations_dicts(pofiles):
-- 
2.43.0


From d77ca4c15671a62f91478b1dae8d711993532307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 28/65] fix: do not hide translations with empty entries of
 other PO files

---
 src/mdpo/po.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 8a5b2af..8d807c2 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -124,11 +124,11 @@ def pofiles_to_unique_translations_dicts(pofiles):
             if entry.msgctxt:
                 if entry.msgctxt not in translations_with_msgctxt:
                     translations_with_msgctxt[entry.msgctxt] = {}
-                translations_with_msgctxt[
-                    entry.msgctxt
-                ][entry.msgid] = entry.msgstr
+                context_translations = translations_with_msgctxt[entry.msgctxt]
             else:
-                translations[entry.msgid] = entry.msgstr
+                context_translations = translations
+            if entry.msgstr or entry.msgid not in context_translations:
+                context_translations[entry.msgid] = entry.msgstr
     return (translations, translations_with_msgctxt)
 
 
-- 
2.43.0


From 989e8543696232ec41013463e119a3542be149b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 29/65] fix: do not report the header as a fuzzy entry

---
 src/mdpo/po.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 8d807c2..0894885 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -257,10 +257,22 @@ def parse_fuzzy_from_content_lines(
         list(str): error locations found.
     """
     for i, line in enumerate(content_lines):
-        if line.startswith(b'#,') and b'fuzzy' in line:
+        if (
+            line.startswith(b'#,') and b'fuzzy' in line
+        ) and not _is_header_flags_line(content_lines, i):
             yield f'{location_prefix}{i + 1}'
 
 
+def _is_header_flags_line(content_lines, i):
+    """Check if a line of flags belongs to the header of a PO file."""
+    for n, line in enumerate(content_lines[i + 1:], start=i + 1):
+        if not line.startswith(b'#') or line.startswith(b'#~'):
+            return line.startswith(b'msgid ""') and (
+                content_lines[n + 1:n + 2] or [b'msgstr']
+            )[0].startswith(b'msgstr')
+    return False
+
+
 def parse_empty_msgstr_from_content_lines(
     content_lines,
     location_prefix='line ',
-- 
2.43.0


From 4184c8879e7853bcb837abd78b4a741bfc2fe6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 30/65] fix: use the extensions and the PO wrap width given in
 md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..a104eee 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -164,6 +164,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
@@ -171,6 +172,7 @@ def markdown_to_pofile_to_markdown(
             # po2md
             po2md = Po2Md(
                 [po_filepath],
+                extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
                 po_encoding=po_encoding,
-- 
2.43.0


From 6ea7784f0beba3633a3700ff720029d5a99031b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 31/65] fix: reset pending commands and code blocks extraction
 between files

---
 src/mdpo/md2po/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index f24d0f8..baf473b 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1035,6 +1035,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -1047,6 +1048,9 @@ class Md2Po:
                 self.enable_next_block = False
                 self.include_next_codeblock = False
                 self.disable_next_codeblock = False
+                self.include_codeblocks = include_codeblocks
+                self.current_tcomment = None
+                self.current_msgctxt = None
                 self.link_references = None
                 self._current_top_level_block_number = 0
                 self._current_top_level_block_type = None
-- 
2.43.0


From fb6d43e98ba94f9daf24df5db299391a3b5a83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 32/65] fix: let enable-next commands prevail in mdpo2html as
 in md2po

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 7d4b63e..36df2ea 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -266,8 +266,8 @@ class MdPo2HTML(HTMLParser):
             self._flush_replacer()
             return
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = None
 
             self.disabled_entries.append(
-- 
2.43.0


From d481118cec40a2f07cfec7e5c07f61dc6fc7ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 33/65] fix: locate messages after nested ordered lists at
 their top level block

---
 src/mdpo/md2po/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index baf473b..2ade24d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -373,7 +373,7 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
+        self._inside_olblock = 0  # nesting level
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
@@ -642,7 +642,7 @@ class Md2Po:
 
             if self._inside_olblock or self._uls_deep:
                 self._save_current_msgid()
-            self._inside_olblock = True
+            self._inside_olblock += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
@@ -687,7 +687,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._inside_olblock -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 753e9e019bcc150e7ea2e4696873583df1e72b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 34/65] fix: do not join messages refused by events with the
 next ones

---
 src/mdpo/md2po/__init__.py | 1 +
 src/mdpo/po2md/__init__.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2ade24d..ebd3960 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -469,6 +469,7 @@ class Md2Po:
             self.current_tcomment,
             ['fuzzy'] if fuzzy else [],
         ):
+            self.current_msgid = ''
             return
 
         if self.current_msgid:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 11b2bd0..cdac2c9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -434,6 +434,7 @@ class Po2Md:
             self.current_tcomment,
             [],
         ):
+            self.current_msgid = ''
             return
 
         if not self.current_msgid:
-- 
2.43.0


From 0828307d083ea191bb50898c982ef254af256cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 35/65] fix: write md2po2md outputs at the paths of their
 schema for dotted languages, files named as them and {ext}

---
 src/mdpo/md2po2md/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index a104eee..14d0c1c 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -118,15 +118,15 @@ def markdown_to_pofile_to_markdown(
 
             file_basename = os.path.splitext(os.path.basename(filepath))[0]
 
-            format_kwargs = {'lang': lang}
+            format_kwargs = {'lang': lang, 'ext': md_ext.lstrip('.')}
             if '{basename}' in output_paths_schema:
                 format_kwargs['basename'] = file_basename
             po_filepath = output_paths_schema.format(**format_kwargs)
 
-            po_basename = os.path.basename(po_filepath)
+            schema_basename = os.path.basename(output_paths_schema)
             po_dirpath = (
                 os.path.dirname(po_filepath)
-                if (po_basename.count('.') or file_basename == po_basename)
+                if '.' in schema_basename or schema_basename == '{basename}'
                 else po_filepath
             )
 
@@ -139,7 +139,6 @@ def markdown_to_pofile_to_markdown(
             if not po_filepath.endswith('.po'):
                 po_filepath += '.po'
 
-            format_kwargs['ext'] = md_ext.lstrip('.')
             md_filepath = output_paths_schema.format(**format_kwargs)
             if os.path.isdir(md_filepath):
                 md_filepath = os.path.join(
-- 
2.43.0


From e5db042c71e0694da8b9488fdf844bfbfa25b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 36/65] fix: do not fail translating without the LaTeX math
 extension

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index cdac2c9..13c580c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -277,9 +277,9 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
+        self._inside_latexmath_display = False
 
+        if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
-- 
2.43.0


From 078566149bd3849d47f63e96fc094b51e86d8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 37/65] fix: read messages to ignore with other line separators
 whole

---
 src/mdpo/md2po/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 0f2ec3b..0e83ca4 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -184,7 +184,7 @@ def parse_options(args):
 
     if opts.ignore_msgids is not None:
         with open(opts.ignore_msgids, encoding=opts.po_encoding) as f:
-            opts.ignore_msgids = f.read().splitlines()
+            opts.ignore_msgids = f.read().split('\n')
     else:
         opts.ignore_msgids = []
 
-- 
2.43.0


From e3933edd2dc40ed13b5423094f2ea2eb3dc93523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 38/65] fix: keep links whose text is their relative
 destination

---
 src/mdpo/md2po/__init__.py |  3 ++-
 src/mdpo/md4c.py           | 17 +++++++++++++++++
 src/mdpo/po2md/__init__.py |  6 ++++--
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ebd3960..1b070c5 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -24,6 +24,7 @@ from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
     attribute_text,
+    is_autolink,
     link_destination,
 )
 from mdpo.po import (
@@ -820,7 +821,7 @@ class Md2Po:
             else:
                 title = attribute_text(details['title'])
                 href = attribute_text(details['href'])
-                if href and self._current_aspan_text == href:
+                if is_autolink(self._current_aspan_text, href):
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index eb993b4..a59ba17 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -43,6 +43,23 @@ def attribute_text(attribute):
     return ''.join(text for _, text in attribute or ())
 
 
+def is_autolink(text, destination):
+    """Check if a link can be represented as ``<destination>``.
+
+    Args:
+        text (str): Text of the link.
+        destination (str): Destination of the link.
+
+    Returns:
+        bool: The text is the destination, which is an absolute URI.
+    """
+    import re
+
+    return text == destination and re.match(
+        r'[a-zA-Z][a-zA-Z0-9+.-]{1,31}:[^\s<>]*$', destination,
+    ) is not None
+
+
 def link_destination(destination):
     """Return the Markdown representation of the destination of a link.
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 13c580c..a797a65 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -17,6 +17,7 @@ from mdpo.md import parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     attribute_text,
+    is_autolink,
     link_destination,
 )
 from mdpo.po import (
@@ -903,8 +904,9 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_href and (
-                self._current_aspan_text == self._current_aspan_href
+            elif is_autolink(
+                self._current_aspan_text,
+                self._current_aspan_href,
             ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
-- 
2.43.0


From 67d64fd114ccb5f8e532060ac11f65762f3ca17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 39/65] fix: read line breaks inside titles, alternative texts
 and display math as spaces

---
 src/mdpo/md2po/__init__.py | 5 +++--
 src/mdpo/md4c.py           | 3 ++-
 src/mdpo/po2md/__init__.py | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 1b070c5..d49da5a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -892,7 +892,7 @@ class Md2Po:
             self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
-            self.current_msgid += self._inside_latexmath_display_text
+            self.current_msgid += self._inside_latexmath_display_text.strip()
             self._inside_latexmath_display_text = ''
             self._save_current_msgid()
 
@@ -905,6 +905,7 @@ class Md2Po:
             if not self._inside_codeblock:
                 if any([  # softbreaks
                     self._inside_liblock, self._inside_aspan,
+                    self._current_imgspan,
                 ]) and text == '\n':
                     text = ' '
                 if not self.plaintext:
@@ -935,7 +936,7 @@ class Md2Po:
                         )
                     return
                 if self._inside_latexmath_display:
-                    self._inside_latexmath_display_text += text.strip()
+                    self._inside_latexmath_display_text += text
                     return
                 self.current_msgid += text
             elif not self.disable_next_codeblock and (
diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index a59ba17..c023235 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -33,6 +33,7 @@ def attribute_text(attribute):
     """Return the whole text of an attribute of a span or block.
 
     Attributes are splitted by md4c in several parts if they contain entities.
+    Their line breaks are as soft as those of the text.
 
     Args:
         attribute (list): Attribute as given by md4c, or ``None``.
@@ -40,7 +41,7 @@ def attribute_text(attribute):
     Returns:
         str: Text of the attribute.
     """
-    return ''.join(text for _, text in attribute or ())
+    return ''.join(text for _, text in attribute or ()).replace('\n', ' ')
 
 
 def is_autolink(text, destination):
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a797a65..d926ba9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1007,7 +1007,9 @@ class Po2Md:
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
                 if (
-                    self._inside_liblock or self._inside_aspan
+                    self._inside_liblock
+                    or self._inside_aspan
+                    or self._current_imgspan
                 ) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-- 
2.43.0


From 1b4dccf94d1e10ca676a8c54891634cf85da810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 40/65] fix: keep other line separators inside indented code
 blocks

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d926ba9..642e7ad 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -460,7 +460,9 @@ class Po2Md:
 
         if self._inside_indented_codeblock:
             new_translation = ''
-            for line in translation.splitlines():
+            if translation.endswith('\n'):
+                translation = translation[:-1]
+            for line in translation.split('\n'):
                 new_translation += f'    {line}\n'
             translation = new_translation
         else:
-- 
2.43.0


From 37a20f32607cf862213721524e858f93ca9dbd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 41/65] fix: do not change texts wrapping them

---
 src/mdpo/md.py             | 42 ++++++++++++++++++++++++++++++++++++++
 src/mdpo/po2md/__init__.py | 28 +++++++++++++++++++------
 2 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 2745a66..8a99653 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -5,6 +5,48 @@ LINK_REFERENCE_REGEX = (
     r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
 )
 
+# beginnings of lines that are read as something else than more text
+BLOCK_START_REGEX = (
+    r'>|#{1,6}(?:[ \t]|$)|(?:[-+*]|\d{1,9}[.)])(?:[ \t]|$)|`{3}|~{3}'
+    r'|(?:[-_*|:=][ \t]*)+$'
+    r'|<(?:[!?]|/?[a-zA-Z][a-zA-Z0-9-]*(?:[\s/>]|$))'
+)
+
+
+# characters of scripts written without spaces between words
+WITHOUT_SPACES_REGEX = (
+    '[\u1100-\u11ff\u2e80-\ufaff\ufe30-\uffef\U00020000-\U0003fffd]'
+)
+
+# line inside the target of a link or a comment, which can't be splitted
+OPEN_TARGET_REGEX = r'(?:\[\[[^\]]*|\]\(<[^>]*|<!--(?!.*-->).*)$'
+
+
+def is_soft_break(line, separator, next_line):
+    """Check if a line break in a text would be read as an space.
+
+    Args:
+        line (str): Line of a paragraph.
+        separator (str): Text replaced by the line break.
+        next_line (str): Line that would follow it.
+
+    Returns:
+        bool: ``False`` if the second line would start other block, if the
+        break is a hard one or if it changes the text.
+    """
+    import re
+
+    if not separator:
+        # only scripts written without spaces are splitted there
+        return re.search(
+            WITHOUT_SPACES_REGEX, line[-1:] + next_line[:1],
+        ) is not None
+    return (
+        not re.match(BLOCK_START_REGEX, next_line)
+        and not re.search(OPEN_TARGET_REGEX, line)
+        and (len(line) - len(line.rstrip('\\'))) % 2 == 0
+    )
+
 
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 642e7ad..42c9be8 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,7 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import parse_link_references
+from mdpo.md import is_soft_break, parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     attribute_text,
@@ -423,6 +423,22 @@ class Po2Md:
         self.disable_next_block = False
         self.enable_next_block = False
 
+    def _wrap(self, text, first_line_width_diff):
+        lines, end = [], 0
+        for line in md_ulb_pwrap.ulb_wrap_paragraph(
+            text,
+            self.wrapwidth,
+            max(self.wrapwidth + first_line_width_diff, 1),
+        ).split('\n'):
+            start = text.index(line, end)
+            separator = text[end:start]
+            if lines and not is_soft_break(lines[-1], separator, line):
+                lines[-1] += separator + line
+            else:
+                lines.append(line)
+            end = start + len(line)
+        return '\n'.join(lines)
+
     def _save_current_msgid(self):
         # raise 'msgid' event
         if raise_skip_event(
@@ -480,11 +496,11 @@ class Po2Md:
             #
             # Only execute it for text outside tables
             if not self._inside_codeblock and not self._current_thead_aligns:
-                translation = md_ulb_pwrap.ulb_wrap_paragraph(
-                    translation,
-                    self.wrapwidth,
-                    self.wrapwidth + first_line_width_diff,
-                )
+                if not self._inside_hblock:
+                    translation = self._wrap(
+                        translation,
+                        first_line_width_diff,
+                    )
 
                 if not any([
                     self._inside_liblock,
-- 
2.43.0


From 1562ce84208ec085da5a1133e37da188c2161f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 42/65] fix: keep display math in the text that contains it

---
 src/mdpo/md2po/__init__.py | 31 +++++++++++++++++-----
 src/mdpo/po2md/__init__.py | 54 ++++++++++++++++++++++++++++++++------
 2 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d49da5a..256ac11 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -249,6 +249,7 @@ class Md2Po:
         self._current_top_level_block_type = None
         self._current_markdown_filepath = None
         self._inside_latexmath_display = False
+        self._inside_latexmath_display_text = ''
 
         if not self.plaintext:
             self.bold_start_string = kwargs.get('bold_start_string', '**')
@@ -335,8 +336,6 @@ class Md2Po:
                     md4c.SpanType.LATEXMATH_DISPLAY.value
                 ] = self.latexmathdisplay_end_string
 
-                self._inside_latexmath_display_text = ''
-
             if 'wikilinks' in self.extensions:
                 self.wikilink_start_string = kwargs.get(
                     'wikilink_start_string', '[[',
@@ -459,6 +458,16 @@ class Md2Po:
             msgstr='',
             fuzzy=False,
     ):
+        if self._inside_latexmath_display_text:
+            if self.current_msgid == (
+                f'{self.latexmathdisplay_start_string}'
+                f'{self._inside_latexmath_display_text}'
+                f'{self.latexmathdisplay_end_string}'
+            ):
+                # the message is only the formula
+                self.current_msgid = self._inside_latexmath_display_text
+            self._inside_latexmath_display_text = ''
+
         # raise 'msgid' event
         if raise_skip_event(
             self.events,
@@ -776,7 +785,9 @@ class Md2Po:
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = True
+            if not self._inside_aspan:
+                self._inside_latexmath_display = True
+                self._inside_latexmath_display_text = ''
 
     def leave_span(self, span, details):
         # raise 'leave_span' event
@@ -891,10 +902,16 @@ class Md2Po:
         elif span is md4c.SpanType.U:
             self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = False
-            self.current_msgid += self._inside_latexmath_display_text.strip()
-            self._inside_latexmath_display_text = ''
-            self._save_current_msgid()
+            if not self._inside_aspan:
+                self._inside_latexmath_display = False
+                self._inside_latexmath_display_text = (
+                    self._inside_latexmath_display_text.strip()
+                )
+                self.current_msgid += (
+                    f'{self.latexmathdisplay_start_string}'
+                    f'{self._inside_latexmath_display_text}'
+                    f'{self.latexmathdisplay_end_string}'
+                )
 
     def text(self, block, text):
         # raise 'text' event
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 42c9be8..e72ead6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -118,6 +118,7 @@ class Po2Md:
         '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
+        '_inside_latexmath_display_text',
         '_codespan_start_index',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
@@ -279,6 +280,7 @@ class Po2Md:
                 self.wikilink_end_string
 
         self._inside_latexmath_display = False
+        self._inside_latexmath_display_text = ''
 
         if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
@@ -440,6 +442,18 @@ class Po2Md:
         return '\n'.join(lines)
 
     def _save_current_msgid(self):
+        inside_latexmath_display = False
+        if self._inside_latexmath_display_text:
+            if self.current_msgid == (
+                f'{self.latexmath_display_start_string}'
+                f'{self._inside_latexmath_display_text}'
+                f'{self.latexmath_display_end_string}'
+            ):
+                # the message is only the formula
+                self.current_msgid = self._inside_latexmath_display_text
+                inside_latexmath_display = True
+            self._inside_latexmath_display_text = ''
+
         # raise 'msgid' event
         if raise_skip_event(
             self.events,
@@ -502,6 +516,18 @@ class Po2Md:
                         first_line_width_diff,
                     )
 
+            if inside_latexmath_display:
+                separator = '\n' if self._inside_pblock and not any([
+                    self._inside_liblock,
+                    self._inside_quoteblock,
+                ]) else ''
+                translation = separator.join([
+                    self.latexmath_display_start_string,
+                    translation,
+                    self.latexmath_display_end_string,
+                ])
+
+            if not self._inside_codeblock and not self._current_thead_aligns:
                 if not any([
                     self._inside_liblock,
                     self._inside_hblock,
@@ -881,7 +907,11 @@ class Po2Md:
             else:
                 self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = True
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_display_start_string
+            else:
+                self._inside_latexmath_display = True
+                self._inside_latexmath_display_text = ''
 
     def leave_span(self, span, details):
         # raise 'leave_span' event
@@ -1003,13 +1033,18 @@ class Po2Md:
             else:
                 self.current_msgid += self.latexmath_end_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = False
-            self.current_line += self.latexmath_display_start_string
-            self._save_current_line()
-            self.current_msgid = self.current_msgid.strip()
-            self._save_current_msgid()
-            self.current_line += self.latexmath_display_end_string
-            self._save_current_line()
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_display_end_string
+            else:
+                self._inside_latexmath_display = False
+                self._inside_latexmath_display_text = (
+                    self._inside_latexmath_display_text.strip()
+                )
+                self.current_msgid += (
+                    f'{self.latexmath_display_start_string}'
+                    f'{self._inside_latexmath_display_text}'
+                    f'{self.latexmath_display_end_string}'
+                )
 
     def text(self, block, text):
         # raise 'text' event
@@ -1050,6 +1085,9 @@ class Po2Md:
 
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
+                if self._inside_latexmath_display:
+                    self._inside_latexmath_display_text += text
+                    return
                 if text == self._current_aspan_href:
                     # self-referenced wiki or inline link
                     self._current_aspan_href = None
-- 
2.43.0


From 49f9a2a9d453993c46151663ad66118a68e5fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 43/65] fix: do not escape formulas made of a character

---
 src/mdpo/md2po/__init__.py | 12 +++++++++++-
 src/mdpo/po2md/__init__.py | 10 +++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 256ac11..aabc983 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -129,6 +129,7 @@ class Md2Po:
         '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
+        '_inside_latexmath',
         '_inside_olblock',
         '_inside_hblock',
         '_quoteblocks_deep',
@@ -248,6 +249,7 @@ class Md2Po:
         self._current_top_level_block_number = 0
         self._current_top_level_block_type = None
         self._current_markdown_filepath = None
+        self._inside_latexmath = False
         self._inside_latexmath_display = False
         self._inside_latexmath_display_text = ''
 
@@ -784,6 +786,8 @@ class Md2Po:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
+        elif span is md4c.SpanType.LATEXMATH:
+            self._inside_latexmath = True
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             if not self._inside_aspan:
                 self._inside_latexmath_display = True
@@ -901,6 +905,8 @@ class Md2Po:
                 self.current_msgid += img_markup
         elif span is md4c.SpanType.U:
             self._inside_uspan = False
+        elif span is md4c.SpanType.LATEXMATH:
+            self._inside_latexmath = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             if not self._inside_aspan:
                 self._inside_latexmath_display = False
@@ -933,7 +939,11 @@ class Md2Po:
                     if self._inside_aspan:
                         self._current_aspan_text += text
                         return
-                    if self._inside_codespan:
+                    if any([
+                        self._inside_codespan,
+                        self._inside_latexmath,
+                        self._inside_latexmath_display,
+                    ]):
                         pass
                     elif text == self.italic_start_string:
                         text = self.italic_start_string_escaped
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e72ead6..1864039 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -117,6 +117,7 @@ class Po2Md:
         '_inside_hblock',
         '_inside_aspan',
         '_inside_codespan',
+        '_inside_latexmath',
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
         '_codespan_start_index',
@@ -279,6 +280,7 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        self._inside_latexmath = False
         self._inside_latexmath_display = False
         self._inside_latexmath_display_text = ''
 
@@ -902,6 +904,7 @@ class Po2Md:
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH:
+            self._inside_latexmath = True
             if self._inside_aspan:
                 self._current_aspan_text += self.latexmath_start_string
             else:
@@ -1028,6 +1031,7 @@ class Po2Md:
 
             self._current_imgspan = {}
         elif span is md4c.SpanType.LATEXMATH:
+            self._inside_latexmath = False
             if self._inside_aspan:
                 self._current_aspan_text += self.latexmath_end_string
             else:
@@ -1072,7 +1076,11 @@ class Po2Md:
                 if self._inside_aspan:
                     self._current_aspan_text += text
                     return
-                if self._inside_codespan:
+                if any([
+                    self._inside_codespan,
+                    self._inside_latexmath,
+                    self._inside_latexmath_display,
+                ]):
                     pass
                 elif text == self.italic_start_string:
                     text = self.italic_start_string_escaped
-- 
2.43.0


From a80eb96a5f53fa671d4ae96474b91a6092878080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 44/65] fix: keep the markup of the text of wikilinks

---
 src/mdpo/md2po/__init__.py | 24 ++++++++++++++++--------
 src/mdpo/po2md/__init__.py | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index aabc983..2f97eea 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -137,6 +137,8 @@ class Md2Po:
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
+        '_current_wikilink_text',
+        '_wikilink_start_index',
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
         '_current_imgspan',
@@ -786,6 +788,8 @@ class Md2Po:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
+            self._current_wikilink_text = ''
+            self._wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH:
             self._inside_latexmath = True
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -812,7 +816,16 @@ class Md2Po:
 
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
-                self.current_msgid += self._current_wikilink_target
+                text = self.current_msgid[self._wikilink_start_index:]
+                self.current_msgid = (
+                    self.current_msgid[:self._wikilink_start_index]
+                    + self._current_wikilink_target
+                )
+                if self._current_wikilink_target not in (
+                    text, self._current_wikilink_text,
+                ):
+                    # not self-referenced wikilink
+                    self.current_msgid += f'|{text}'
                 self._current_wikilink_target = None
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
@@ -939,6 +952,8 @@ class Md2Po:
                     if self._inside_aspan:
                         self._current_aspan_text += text
                         return
+                    if self._current_wikilink_target:
+                        self._current_wikilink_text += text
                     if any([
                         self._inside_codespan,
                         self._inside_latexmath,
@@ -955,13 +970,6 @@ class Md2Po:
                         text = self.code_end_string_escaped
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
-                if self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        # not self-referenced wikilink
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text
                     return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1864039..39d0ff6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -133,6 +133,8 @@ class Po2Md:
         '_ol_marks',
         '_current_list_type',
         '_current_wikilink_target',
+        '_current_wikilink_text',
+        '_wikilink_start_index',
         'link_references',
     }
 
@@ -903,6 +905,8 @@ class Po2Md:
             self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
+            self._current_wikilink_text = ''
+            self._wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH:
             self._inside_latexmath = True
             if self._inside_aspan:
@@ -935,7 +939,16 @@ class Po2Md:
                 return
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += self._current_wikilink_target
+            text = self.current_msgid[self._wikilink_start_index:]
+            self.current_msgid = (
+                self.current_msgid[:self._wikilink_start_index]
+                + self._current_wikilink_target
+            )
+            if self._current_wikilink_target not in (
+                text, self._current_wikilink_text,
+            ):
+                # not self-referenced wikilink
+                self.current_msgid += f'|{text}'
             self._current_wikilink_target = None
 
         if self._inside_aspan:  # span inside link text
@@ -1076,6 +1089,8 @@ class Po2Md:
                 if self._inside_aspan:
                     self._current_aspan_text += text
                     return
+                if self._current_wikilink_target:
+                    self._current_wikilink_text += text
                 if any([
                     self._inside_codespan,
                     self._inside_latexmath,
@@ -1099,13 +1114,6 @@ class Po2Md:
                 if text == self._current_aspan_href:
                     # self-referenced wiki or inline link
                     self._current_aspan_href = None
-
-                elif self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 self.current_msgid += text
             else:
                 self.current_msgid += text
-- 
2.43.0


From 2eaa2d62e59c5b8db58de3fffe176d18d060fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 45/65] fix: escape the separators inside table cells

---
 src/mdpo/md.py             | 21 +++++++++++++++++++++
 src/mdpo/po2md/__init__.py |  6 ++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 8a99653..52a7a15 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -21,6 +21,27 @@ WITHOUT_SPACES_REGEX = (
 # line inside the target of a link or a comment, which can't be splitted
 OPEN_TARGET_REGEX = r'(?:\[\[[^\]]*|\]\(<[^>]*|<!--(?!.*-->).*)$'
 
+# code spans, wikilinks and escaped characters, or a separator of cells
+CELL_SEPARATOR_REGEX = r'(?<!`)(`+)(?!`).*?(?<!`)\1(?!`)|\[\[.*?\]\]|\\.|\|'
+
+
+def escape_cell(text):
+    """Escape the separators inside the text of a table cell.
+
+    Args:
+        text (str): Text of the cell.
+
+    Returns:
+        str: Text which is read as only one cell.
+    """
+    import re
+
+    return re.sub(
+        CELL_SEPARATOR_REGEX,
+        lambda match: '\\|' if match.group() == '|' else match.group(),
+        text,
+    )
+
 
 def is_soft_break(line, separator, next_line):
     """Check if a line break in a text would be read as an space.
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 39d0ff6..026ee11 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,7 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import is_soft_break, parse_link_references
+from mdpo.md import escape_cell, is_soft_break, parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     attribute_text,
@@ -531,7 +531,9 @@ class Po2Md:
                     self.latexmath_display_end_string,
                 ])
 
-            if not self._inside_codeblock and not self._current_thead_aligns:
+            if self._current_thead_aligns:
+                translation = escape_cell(translation)
+            elif not self._inside_codeblock:
                 if not any([
                     self._inside_liblock,
                     self._inside_hblock,
-- 
2.43.0


From af9b2955318c75dc0b33918abf1ca48077e7c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 46/65] fix: keep quotes inside quotes and what follows them

---
 src/mdpo/po2md/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 026ee11..a928126 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -123,6 +123,7 @@ class Po2Md:
         '_codespan_start_index',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
+        '_quoteblocks_starts',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -316,6 +317,8 @@ class Po2Md:
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
+        # lines where the quotes that contain the current block start
+        self._quoteblocks_starts = []
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -679,6 +682,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._inside_quoteblock = True
+            self._quoteblocks_starts.append(len(self.outputlines))
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -827,6 +831,15 @@ class Po2Md:
         elif block is md4c.BlockType.QUOTE:
             if self.outputlines and self.outputlines[-1] == '>':
                 self.outputlines.pop()
+            start = self._quoteblocks_starts.pop()
+            if self._quoteblocks_starts:  # quote inside other
+                self.outputlines[start:] = [
+                    f'> {line}'
+                    for line in '\n'.join(self.outputlines[start:]).split('\n')
+                ]
+                self.current_line = '>'
+                self._save_current_line()
+                return
             if not self._inside_liblock:
                 self._save_current_line()
             self._inside_quoteblock = False
-- 
2.43.0


From a7c9abb59db46725bfc11b7a835056202464dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 47/65] fix: keep the HTML blocks inside quotes

---
 src/mdpo/po2md/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a928126..ee782d4 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -849,7 +849,15 @@ class Po2Md:
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             if not self._inside_htmlblock[1]:
-                self.current_line += '\n'
+                if self._inside_quoteblock and not self._current_list_type:
+                    self.current_line = (
+                        self.current_line.rstrip('\n').replace('\n', '\n> ')
+                    )
+                    self._save_current_line()
+                    self.current_line = '>'
+                    self._save_current_line()
+                else:
+                    self.current_line += '\n'
             else:
                 self.current_line = self.current_line.rstrip('\n')
                 if self.current_line.strip('> '):  # not only commands
-- 
2.43.0


From e222fe6d49bd6610e558fafc198cc59b2b4c2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 48/65] fix: follow the commands inside list items in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 36df2ea..fe9011d 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -224,6 +224,9 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += handled
                     _current_replacement += handled
                 else:
+                    if not raw_html_template and handled[0] == ' ':
+                        # text after a command
+                        raw_html_template += ' '
                     raw_html_template += '{}'
                     if _current_link_target:
                         _current_replacement += (
@@ -423,8 +426,18 @@ class MdPo2HTML(HTMLParser):
 
     def handle_comment(self, data):
 
+        inside_list_item = False
         if not self.context:
             self._flush_replacer()
+        elif (
+            self.context == ['li']
+            and self._original_html[-1:] != ' '
+            and parse_mdpo_html_command(f'<!--{data}-->')[0] is not None
+        ):
+            # command in its own line of a list item, maybe after its text
+            self._process_replacer()
+            self._flush_replacer()
+            inside_list_item = True
         if self.replacer:
             self.replacer.append(('comment', data, None))
             self._original_html += f'<!--{data}-->'
@@ -466,6 +479,10 @@ class MdPo2HTML(HTMLParser):
                     )
                 else:
                     self.output += data_as_comment
+        if inside_list_item:
+            # the text that follows is a message too
+            self.replacer.append(('data', '', None))
+            self.context.append('li')
 
     def translate(self, filepath_or_content, save=None, html_encoding='utf-8'):
         content = to_file_content_if_is_file(
-- 
2.43.0


From e792dceeb0a9efbad4a12849d989c8d34c26afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 49/65] fix: read links, titles and code spans in mdpo2html as
 md2po writes them

---
 src/mdpo/mdpo2html/__init__.py | 44 +++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index fe9011d..143e0ad 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -16,10 +16,12 @@ from mdpo.command import (
 )
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import solve_link_reference_targets
+from mdpo.md4c import is_autolink
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
 )
+from mdpo.text import delimited_codespan
 
 
 PROCESS_REPLACER_TAGS = [
@@ -169,6 +171,8 @@ class MdPo2HTML(HTMLParser):
         template_tags = []
         raw_html_template, _current_replacement = ('', '')
 
+        # indexes where the current link and code span start
+        _link_index, _code_index = (None, None)
         _current_link_target = ''
 
         _last_start_tag = None
@@ -184,7 +188,7 @@ class MdPo2HTML(HTMLParser):
                 )
 
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    _code_index = len(_current_replacement)
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
@@ -194,10 +198,10 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.link_tags and 'href' in attrs:
                     title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
+                    _link_index = len(_current_replacement)
+                    _current_link_target = href or ''
                     if title:
-                        _current_link_target += f' "{title}"'
-                    _current_link_target += ')'
+                        _current_link_target += f' "{polib.escape(title)}"'
 
                     raw_html_template += f'<{handled}'
 
@@ -228,17 +232,29 @@ class MdPo2HTML(HTMLParser):
                         # text after a command
                         raw_html_template += ' '
                     raw_html_template += '{}'
-                    if _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                    _current_replacement += handled
             elif handle == 'end':
                 raw_html_template += f'</{handled}>'
-                if handled in self.code_tags:
-                    _current_replacement += '`'
+                if handled in self.code_tags and _code_index is not None:
+                    _current_replacement = (
+                        _current_replacement[:_code_index]
+                        + delimited_codespan(
+                            _current_replacement[_code_index:],
+                        )
+                    )
+                    _code_index = None
+                elif handled in self.link_tags and _link_index is not None:
+                    link_text = _current_replacement[_link_index:]
+                    _current_replacement = (
+                        _current_replacement[:_link_index]
+                    )
+                    if is_autolink(link_text, _current_link_target):
+                        _current_replacement += f'<{link_text}>'
+                    else:
+                        _current_replacement += (
+                            f'[{link_text}]({_current_link_target})'
+                        )
+                    _link_index = None
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
@@ -254,7 +270,7 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
-                        _current_replacement += f' "{title}"'
+                        _current_replacement += f' "{polib.escape(title)}"'
                     _current_replacement += ')'
 
                     raw_html_template += '{}'
-- 
2.43.0


From baf27412251d043884296648ce29ea7acf18773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 50/65] fix: translate in mdpo2html the text of list items
 before other blocks

---
 src/mdpo/mdpo2html/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 143e0ad..dc9b76e 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -28,7 +28,9 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
-GROUPER_TAGS = ['ul', 'ol', 'blockquote', 'table', 'thead', 'tbody', 'tr']
+GROUPER_TAGS = [
+    'ul', 'ol', 'blockquote', 'table', 'thead', 'tbody', 'tr', 'pre',
+]
 VOID_TAGS = ['area', 'br', 'col', 'hr', 'img', 'input', 'source', 'wbr']
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
@@ -161,6 +163,11 @@ class MdPo2HTML(HTMLParser):
         self.replacer = []
         self.context = []
 
+    def _process_list_item(self):
+        # list item with other blocks after its text
+        if self.context and self.context[0] == 'li':
+            self._process_replacer()
+
     def _inside_ignored_grouper(self):
         return (
             self.context and self.context[0] in self.ignore_grouper_tags
@@ -363,17 +370,17 @@ class MdPo2HTML(HTMLParser):
                 self.context.append(tag)
             self.output += self.get_starttag_text()
         elif tag in self.ignore_grouper_tags:
+            self._process_list_item()
             self._flush_replacer()
             self.context.append(tag)
             self.output += self.get_starttag_text()
         elif tag in GROUPER_TAGS:
-            if self.context and self.context[0] == 'li':
-                # list item with other blocks after its text
-                self._process_replacer()
+            self._process_list_item()
             self._flush_replacer()
             self.output += self.get_starttag_text()
         else:
             if tag in PROCESS_REPLACER_TAGS:
+                self._process_list_item()
                 self._flush_replacer()
 
             if tag == 'a' and self.real_link_reference_targets is None:
@@ -409,6 +416,8 @@ class MdPo2HTML(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
 
+        if tag == 'hr':
+            self._process_list_item()
         if not self.context:
             self._flush_replacer()
         if not self.replacer:
-- 
2.43.0


From bffac26a756087f775dfd1c3215bfcc5c2bdbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 51/65] fix: translate in mdpo2html all the messages with
 reference links

---
 src/mdpo/md.py                 | 112 +++++++++++----------------------
 src/mdpo/mdpo2html/__init__.py |  19 ++----
 2 files changed, 41 insertions(+), 90 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 52a7a15..1344869 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -93,6 +93,25 @@ def parse_link_references(content):
     return response
 
 
+def _solve_link_references(message, definitions):
+    import re
+
+    def solve(match):
+        text, target = match.groups()
+        for definition in definitions:
+            if definition[0] == (target or text):
+                _, href, title = definition
+                title_part = f' "{title}"' if title else ''
+                return f'[{text}]({href}{title_part})'
+        return match.group()
+
+    return re.sub(
+        r'\[([^\]]+)\](?:\[([^\]]+)\])?(?![\[(:])',
+        solve,
+        message,
+    )
+
+
 def solve_link_reference_targets(translations):
     """Solve link reference targets in markdown blocks.
 
@@ -108,17 +127,12 @@ def solve_link_reference_targets(translations):
     """
     import re
 
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
     solutions = {}
 
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
+    # link references defined in msgids and those that translate them
+    msgid_definitions, msgstr_definitions = ([], [])
 
     # discover link reference definitions
     for msgid, msgstr in translations.items():
@@ -127,76 +141,20 @@ def solve_link_reference_targets(translations):
             if msgid_match:
                 msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
                 if msgstr_match:
-                    link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        if new_msgid is not None:
-            solutions[new_msgid] = (
-                orig_msgstr if new_msgstr is None else new_msgstr
+                    msgid_definitions.append(msgid_match.groups())
+                    msgstr_definitions.append(msgstr_match.groups())
+
+    if not msgid_definitions:
+        return solutions
+
+    for msgid, msgstr in translations.items():
+        if not msgstr:
+            continue
+        new_msgid = _solve_link_references(msgid, msgid_definitions)
+        if new_msgid != msgid:
+            # replace referenced targets with real ones
+            solutions[new_msgid] = _solve_link_references(
+                msgstr, msgstr_definitions,
             )
 
     return solutions
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index dc9b76e..f6fa99d 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -102,11 +102,6 @@ class MdPo2HTML(HTMLParser):
             False if _check_saved_files_changed is not None else None
         )
 
-        # references of msgids and their msgstrs changing referenced link
-        # targets by their real target, needed to support link references
-        # (this variable is redefined when the first link tag `a` is found)
-        self.real_link_reference_targets = None
-
         # code markup
         self.code_tags = code_tags
 
@@ -383,14 +378,6 @@ class MdPo2HTML(HTMLParser):
                 self._process_list_item()
                 self._flush_replacer()
 
-            if tag == 'a' and self.real_link_reference_targets is None:
-                # extend translations to populate link reference msgid-msgstrs
-                # with real targets
-                self.real_link_reference_targets = (
-                    solve_link_reference_targets(self.translations)
-                )
-                self.translations.update(self.real_link_reference_targets)
-
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self._original_html += self.get_starttag_text()
             self.context.append(tag)
@@ -518,6 +505,12 @@ class MdPo2HTML(HTMLParser):
         self.translations, self.translations_with_msgctxt = (
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
+        # extend translations to populate link reference msgid-msgstrs
+        # with real targets
+        self.translations = {
+            **solve_link_reference_targets(self.translations),
+            **self.translations,
+        }
 
         self.feed(content)
         self.close()
-- 
2.43.0


From 69041f7edb7d5f7fd3fa9bea4aad13dc82188811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 52/65] fix: find the link references that Markdown defines and
 keep their titles

Lines of code, of paragraphs or with more text were taken as definitions,
titles containing quotes were cut and those with spaces in their
destinations or unused were lost. A link without title was written as a
reference which has it.
---
 src/mdpo/md.py             | 89 ++++++++++++++++++++++++++++++--------
 src/mdpo/md2po/__init__.py | 19 ++++----
 src/mdpo/po2md/__init__.py | 26 ++++++-----
 3 files changed, 96 insertions(+), 38 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 1344869..144c05c 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,9 +1,12 @@
 """Markdown related utilities for mdpo."""
 
+import polib
+
+from mdpo.md4c import attribute_text, link_destination
 
-LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
-)
+
+# beginning of the lines that could define link references
+LINK_REFERENCE_REGEX = r'^\[((?:\\.|[^\\\[\]])+)\]:'
 
 # beginnings of lines that are read as something else than more text
 BLOCK_START_REGEX = (
@@ -77,20 +80,72 @@ def parse_link_references(content):
 
     Returns:
         list: Tuples with 3 values, target, href and title for each link
-        reference.
+        reference. The title is ``None`` for those without it.
     """
     import re
 
+    import md4c
+
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
-    response = []
+    targets = {}
     for line in content.splitlines():
         linestrip = line.strip()
         if linestrip and linestrip.startswith('['):
             match = re.search(link_reference_re, linestrip)
             if match:
-                response.append(match.groups())
-    return response
+                # targets are the same regardless of their case and spaces
+                target = match.group(1)
+                targets.setdefault(' '.join(target.split()).lower(), target)
+    if not targets:
+        return []
+    targets = list(targets.values())
+
+    # link to each target before the content, to know which are defined
+    paragraphs, links = ([], [])
+
+    def enter_block(block, details):  # noqa: ARG001
+        paragraphs.append(block)
+
+    def enter_span(span, details):
+        if span is md4c.SpanType.A:
+            links.append((len(paragraphs) - 2, details))
+
+    def ignore(*args):
+        pass
+
+    md4c.GenericParser(0).parse(
+        ''.join(f'[{target}]\n\n' for target in targets) + content,
+        enter_block,
+        ignore,
+        enter_span,
+        ignore,
+        ignore,
+    )
+    return [
+        (
+            targets[index],
+            attribute_text(details['href']),
+            attribute_text(details['title']) or None,
+        )
+        for index, details in links
+        if index < len(targets)
+    ]
+
+
+def link_reference_definition(target, href, title):
+    """Return the Markdown representation of the definition of a reference.
+
+    Args:
+        target (str): Text which identifies the reference.
+        href (str): Destination of the links that use it.
+        title (str): Title of the links that use it, if any.
+
+    Returns:
+        str: Line that defines the link reference.
+    """
+    title_part = f' "{polib.escape(title)}"' if title else ''
+    return f'[{target}]: {link_destination(href) or "<>"}{title_part}'
 
 
 def _solve_link_references(message, definitions):
@@ -101,8 +156,8 @@ def _solve_link_references(message, definitions):
         for definition in definitions:
             if definition[0] == (target or text):
                 _, href, title = definition
-                title_part = f' "{title}"' if title else ''
-                return f'[{text}]({href}{title_part})'
+                title_part = f' "{polib.escape(title)}"' if title else ''
+                return f'[{text}]({link_destination(href)}{title_part})'
         return match.group()
 
     return re.sub(
@@ -125,10 +180,6 @@ def solve_link_reference_targets(translations):
     Returns:
         dict: New created messages with solved link reference targets.
     """
-    import re
-
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
-
     solutions = {}
 
     # link references defined in msgids and those that translate them
@@ -137,12 +188,12 @@ def solve_link_reference_targets(translations):
     # discover link reference definitions
     for msgid, msgstr in translations.items():
         if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = re.search(link_reference_re, msgid.lstrip(' '))
-            if msgid_match:
-                msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
-                if msgstr_match:
-                    msgid_definitions.append(msgid_match.groups())
-                    msgstr_definitions.append(msgstr_match.groups())
+            definitions = parse_link_references(msgid)
+            if definitions:
+                translated_definitions = parse_link_references(msgstr)
+                if translated_definitions:
+                    msgid_definitions += definitions[:1]
+                    msgstr_definitions += translated_definitions[:1]
 
     if not msgid_definitions:
         return solutions
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2f97eea..baeaf79 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -19,7 +19,7 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import link_reference_definition, parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -758,8 +758,8 @@ class Md2Po:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
 
@@ -895,8 +895,8 @@ class Md2Po:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
@@ -983,6 +983,9 @@ class Md2Po:
                 self._process_command(part)
 
     def _dump_link_references(self):
+        if self.link_references is None and not self.plaintext:
+            self.link_references = parse_link_references(self.content)
+
         if self.link_references:
             self.disable_next_block = False
             self.disable = False
@@ -1001,10 +1004,8 @@ class Md2Po:
                     if skip:
                         continue
 
-                self.current_msgid = '[{}]:{}{}'.format(
-                    target,
-                    f' {href}' if href else '',
-                    f' "{title}"' if title else '',
+                self.current_msgid = link_reference_definition(
+                    target, href, title,
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ee782d4..2db794b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,12 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import escape_cell, is_soft_break, parse_link_references
+from mdpo.md import (
+    escape_cell,
+    is_soft_break,
+    link_reference_definition,
+    parse_link_references,
+)
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     attribute_text,
@@ -905,8 +910,8 @@ class Po2Md:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == self._current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == self._current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
         elif span is md4c.SpanType.CODE:
@@ -1045,8 +1050,8 @@ class Po2Md:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
@@ -1146,6 +1151,9 @@ class Po2Md:
                     self.current_line += part
 
     def _append_link_references(self):
+        if self.link_references is None:
+            self.link_references = parse_link_references(self.content)
+
         if self.link_references:
             self.disable_next_block = False
             self.disable = False
@@ -1162,16 +1170,14 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{title}"' if title else ''
-                href_title = f' {href}{title_part}'
-                if href_title in added_references:
+                if (href, title) in added_references:
                     continue
 
-                msgid = f'[{target}]:{href_title}'
+                msgid = link_reference_definition(target, href, title)
                 self.outputlines.append(
                     self._translate_msgid(msgid, None, None),
                 )
-                added_references.append(href_title)
+                added_references.append((href, title))
             self.outputlines.append('')
 
     def translate(
-- 
2.43.0


From 4f4b4486b533856d077b0eafc66e2fd4387487c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 53/65] fix: join the lines of headings, which were written as
 other blocks

---
 src/mdpo/md2po/__init__.py | 2 +-
 src/mdpo/po2md/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index baeaf79..76ef8e0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -968,7 +968,7 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2db794b..c0625b8 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1134,7 +1134,7 @@ class Po2Md:
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
 
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text
-- 
2.43.0


From f4333bc0c0d2dee13c71f95a08cec5cc1aab8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 54/65] fix: include the generator header in plain text mode

The metadata passed by the caller was changed when including it.
---
 src/mdpo/md2po/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 76ef8e0..b402315 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -243,7 +243,14 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        self.metadata = dict(kwargs.get('metadata') or {})
+
+        _include_xheader = kwargs.get('xheader', False)
+
+        if _include_xheader:
+            from mdpo.compat import importlib_metadata
+            version = importlib_metadata.version('mdpo')
+            self.metadata.update({'X-Generator': f'mdpo v{version}'})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
@@ -281,13 +288,6 @@ class Md2Po:
                 self.code_end_string,
             )
 
-            _include_xheader = kwargs.get('xheader', False)
-
-            if _include_xheader:
-                from mdpo.compat import importlib_metadata
-                version = importlib_metadata.version('mdpo')
-                self.metadata.update({'X-Generator': f'mdpo v{version}'})
-
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-- 
2.43.0


From 04d21b3916d66d01380027b29f25d46590de344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 55/65] fix: extract titles in plain text mode as any other
 message

They were extracted from disabled blocks too, without the default
translation and without raising events.
---
 src/mdpo/md2po/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index b402315..5a5ce8d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -712,7 +712,21 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(attribute_text(details['title']))
+            title = attribute_text(details['title'])
+
+            # raise 'msgid' event
+            if raise_skip_event(
+                self.events, 'msgid', self, title, '', None, None, [],
+            ):
+                return
+
+            if (not self.disable_next_block and not self.disable) or \
+                    self.enable_next_block:
+                self._save_msgid(title, msgstr=self.msgstr)
+            else:
+                self.disabled_entries.append(
+                    polib.POEntry(msgid=title, msgstr=self.msgstr),
+                )
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From f53f22e77abc481626c80792ef9a415df9dcef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 56/65] fix: indent headings and HTML after other blocks of
 list items, and write quotes after HTML on their own lines

---
 src/mdpo/po2md/__init__.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c0625b8..324dc3a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -586,6 +586,13 @@ class Po2Md:
             self._save_current_line()
             if block is not md4c.BlockType.HR:
                 self.current_line = '   ' * len(self._current_list_type)
+        elif (
+            self._inside_liblock and not self.current_line
+            and not self._inside_quoteblock
+            and block in {md4c.BlockType.H, md4c.BlockType.HTML}
+        ):
+            # after other blocks of the list item
+            self.current_line = '   ' * len(self._current_list_type)
 
         if (
             self._inside_quoteblock
@@ -686,6 +693,10 @@ class Po2Md:
             if self._inside_liblock:
                 self._save_current_msgid()
                 self._save_current_line()
+            elif not self._inside_quoteblock and self.current_line:
+                # HTML before the quote
+                self.current_line = self.current_line[:-1]
+                self._save_current_line()
             self._inside_quoteblock = True
             self._quoteblocks_starts.append(len(self.outputlines))
         elif block is md4c.BlockType.TABLE:
@@ -861,6 +872,17 @@ class Po2Md:
                     self._save_current_line()
                     self.current_line = '>'
                     self._save_current_line()
+                elif self._inside_liblock and not self._inside_quoteblock:
+                    indent = '   ' * len(self._current_list_type)
+                    if self._current_list_type[-1][0] == 'ul':
+                        indent = indent[:-1]
+                    self.current_line = (
+                        self.current_line.rstrip('\n').replace(
+                            '\n', f'\n{indent}',
+                        ) + '\n'
+                    )
+                    self._save_current_line()
+                    self._inside_liblock_first_p = False
                 else:
                     self.current_line += '\n'
             else:
-- 
2.43.0


From a27fb9a316a6f385f5e5c74cda5f34f8c8d9a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 57/65] fix: write the paragraphs that follow other blocks or
 lists of a list item inside it

---
 src/mdpo/po2md/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 324dc3a..e09cb81 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -594,6 +594,13 @@ class Po2Md:
             # after other blocks of the list item
             self.current_line = '   ' * len(self._current_list_type)
 
+        if self._inside_liblock and block in {
+            md4c.BlockType.CODE, md4c.BlockType.H, md4c.BlockType.HR,
+            md4c.BlockType.HTML, md4c.BlockType.TABLE,
+        }:
+            # next paragraphs do not follow the mark of the list item
+            self._inside_liblock_first_p = False
+
         if (
             self._inside_quoteblock
             and (not self.current_line or self.current_line[0] != '>')
@@ -809,6 +816,10 @@ class Po2Md:
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._current_list_type.pop()
+            if self._current_list_type:
+                # continues the item which contains the list
+                self._inside_liblock = True
+                self._inside_liblock_first_p = False
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
@@ -816,6 +827,10 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
+            if self._current_list_type:
+                # continues the item which contains the list
+                self._inside_liblock = True
+                self._inside_liblock_first_p = False
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._ol_marks and self.outputlines[-1]:
@@ -882,7 +897,6 @@ class Po2Md:
                         ) + '\n'
                     )
                     self._save_current_line()
-                    self._inside_liblock_first_p = False
                 else:
                     self.current_line += '\n'
             else:
-- 
2.43.0


From 95b77aa768be6a08f3de80e6bca340d89b81997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 58/65] fix: write code blocks, thematic breaks and ordered
 lists that start list items inside them

---
 src/mdpo/po2md/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e09cb81..a645ca4 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -617,6 +617,7 @@ class Po2Md:
             indent = ''
 
             if self._inside_liblock:
+                mark = self.current_line and not self.current_msgid
                 self._save_current_msgid()
                 if self.current_line:
                     self._save_current_line()
@@ -629,7 +630,9 @@ class Po2Md:
                     self.current_line += attribute_text(details['lang'])
             else:
                 self._inside_indented_codeblock = True
-                if self._inside_liblock and not self._inside_quoteblock:
+                if self._inside_liblock and not self._inside_quoteblock and (
+                    not mark
+                ):
                     # can't interrupt a paragraph
                     self._save_current_line()
 
@@ -644,7 +647,9 @@ class Po2Md:
                 # inside OL
                 if len(self._ol_marks) > 1:
                     self._save_current_msgid()
-                    if not self._ol_marks[-1][0]:
+                    if not self._ol_marks[-1][0] and (
+                        self._current_list_type[-2][0] == 'ol'
+                    ):
                         self._save_current_line()
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
@@ -677,9 +682,12 @@ class Po2Md:
         elif block is md4c.BlockType.HR:
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
+            mark = self.current_line.split('\n')[-1].strip(' ')
+            if mark == '*':  # would be part of the thematic break
+                self._save_current_line()
             indent = (
                 '   ' * len(self._current_list_type)
-                if not self.current_line.startswith(('- ', '> - ')) else ''
+                if mark in {'', '*'} else ''
             )
             self.current_line += f'{indent}***'
             self._save_current_line()
-- 
2.43.0


From bf37b93459f02086a60921bbea3e61843a13e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 59/65] fix: write the content of quotes as documents, so that
 they may be inside lists and contain them

---
 src/mdpo/po2md/__init__.py | 134 ++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 75 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a645ca4..1481203 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -127,8 +127,8 @@ class Po2Md:
         '_inside_latexmath_display_text',
         '_codespan_start_index',
         '_codespan_inside_current_msgid',
-        '_inside_quoteblock',
-        '_quoteblocks_starts',
+        '_quoteblocks',
+        '_paragraphs',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -321,9 +321,11 @@ class Po2Md:
         self._codespan_start_index = None
         self._codespan_inside_current_msgid = False
 
-        self._inside_quoteblock = False
         # lines where the quotes that contain the current block start
-        self._quoteblocks_starts = []
+        self._quoteblocks = []
+        # indexes of the output lines which are paragraphs: those that
+        # continue them do not need the mark of the quotes
+        self._paragraphs = set()
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -509,7 +511,7 @@ class Po2Md:
             translation = new_translation
         else:
             first_line_width_diff = 0
-            if self._inside_liblock or self._inside_quoteblock:
+            if self._inside_liblock or self._quoteblocks:
                 first_line_width_diff = -2
                 if self._inside_liblock:
                     if self._current_list_type[-1][0] == 'ul':
@@ -531,7 +533,7 @@ class Po2Md:
             if inside_latexmath_display:
                 separator = '\n' if self._inside_pblock and not any([
                     self._inside_liblock,
-                    self._inside_quoteblock,
+                    self._quoteblocks,
                 ]) else ''
                 translation = separator.join([
                     self.latexmath_display_start_string,
@@ -545,7 +547,6 @@ class Po2Md:
                 if not any([
                     self._inside_liblock,
                     self._inside_hblock,
-                    self._inside_quoteblock,
                 ]):
                     translation += '\n'
 
@@ -588,7 +589,6 @@ class Po2Md:
                 self.current_line = '   ' * len(self._current_list_type)
         elif (
             self._inside_liblock and not self.current_line
-            and not self._inside_quoteblock
             and block in {md4c.BlockType.H, md4c.BlockType.HTML}
         ):
             # after other blocks of the list item
@@ -601,15 +601,6 @@ class Po2Md:
             # next paragraphs do not follow the mark of the list item
             self._inside_liblock_first_p = False
 
-        if (
-            self._inside_quoteblock
-            and (not self.current_line or self.current_line[0] != '>')
-            and not self._current_thead_aligns
-            and block not in {
-                md4c.BlockType.TABLE, md4c.BlockType.THEAD, md4c.BlockType.TR,
-            }
-        ):
-            self.current_line += '> '
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
@@ -630,9 +621,7 @@ class Po2Md:
                     self.current_line += attribute_text(details['lang'])
             else:
                 self._inside_indented_codeblock = True
-                if self._inside_liblock and not self._inside_quoteblock and (
-                    not mark
-                ):
+                if self._inside_liblock and not mark:
                     # can't interrupt a paragraph
                     self._save_current_line()
 
@@ -692,13 +681,9 @@ class Po2Md:
             self.current_line += f'{indent}***'
             self._save_current_line()
             if not self._inside_liblock:
-                if self._inside_quoteblock:
-                    self.current_line += f'{indent}>'
                 self._save_current_line()
         elif block is md4c.BlockType.TR:
             self.current_line += '   ' * len(self._current_list_type)
-            if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += '> '
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
@@ -708,14 +693,24 @@ class Po2Md:
             if self._inside_liblock:
                 self._save_current_msgid()
                 self._save_current_line()
-            elif not self._inside_quoteblock and self.current_line:
+            elif self.current_line:
                 # HTML before the quote
                 self.current_line = self.current_line[:-1]
                 self._save_current_line()
-            self._inside_quoteblock = True
-            self._quoteblocks_starts.append(len(self.outputlines))
+            # the content is written as a document, see `leave_block`
+            self._quoteblocks.append((
+                len(self.outputlines),
+                self._inside_liblock,
+                self._current_list_type,
+                self._ul_marks,
+                self._ol_marks,
+            ))
+            self._inside_liblock = False
+            self._current_list_type = []
+            self._ul_marks = []
+            self._ol_marks = []
         elif block is md4c.BlockType.TABLE:
-            if self._current_list_type and not self._inside_quoteblock:
+            if self._current_list_type:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = [True, False]
@@ -735,26 +730,21 @@ class Po2Md:
             self._save_current_msgid()
 
             if self._inside_liblock:
-                if self._inside_quoteblock:
-                    indent = '   ' * len(self._current_list_type)
-                    self.current_line = f'{indent}{self.current_line}'
-                elif self._inside_liblock_first_p:
+                if self._inside_liblock_first_p:
                     self._inside_liblock_first_p = False
                 else:
                     indent = '   ' * len(self._current_list_type)
                     self.current_line = f'\n{indent}{self.current_line}'
+            self._paragraphs.add(len(self.outputlines))
             self._save_current_line()
 
             self._inside_pblock = False
-            if self._inside_quoteblock:
-                self.current_line = '>'
-                self._save_current_line()
 
         elif block is md4c.BlockType.CODE:
             self._save_current_msgid()
             self._inside_codeblock = False
 
-            indent = '> ' if self._inside_quoteblock else ''
+            indent = ''
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
             fence_char = details['fence_char']
@@ -788,10 +778,7 @@ class Po2Md:
                     for line in content.split('\n')
                 )
                 self._save_current_line()
-            blank_line = '>' if self._inside_quoteblock else ''
-            if self._inside_indented_codeblock:
-                self.current_line = blank_line
-            else:
+            if not self._inside_indented_codeblock:
                 self.current_line = f'{indent}{fence_chars}'
 
             self._save_current_line()
@@ -799,19 +786,15 @@ class Po2Md:
             if not self._inside_liblock and (
                     not self._inside_indented_codeblock
             ):
-                self.current_line = blank_line
                 self._save_current_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
             self._save_current_msgid()
-            if self._inside_quoteblock:
-                self._save_current_line()
-                self.current_line += '> '
-            else:
-                self.current_line += '\n'
+            self.current_line += (
+                '\n\n\n' if self._inside_liblock and self._quoteblocks
+                else '\n'
+            )
             self._save_current_line()
-            if self._inside_quoteblock:
-                self.current_line += '> '
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             if self.current_msgid and not self.current_line:
@@ -828,8 +811,6 @@ class Po2Md:
                 # continues the item which contains the list
                 self._inside_liblock = True
                 self._inside_liblock_first_p = False
-            if self._inside_quoteblock:
-                self.current_line += '> '
             if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
@@ -839,8 +820,6 @@ class Po2Md:
                 # continues the item which contains the list
                 self._inside_liblock = True
                 self._inside_liblock_first_p = False
-            if self._inside_quoteblock:
-                self.current_line += '> '
             if not self._ol_marks and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
@@ -852,8 +831,6 @@ class Po2Md:
         elif block is md4c.BlockType.THEAD:
             # build thead separator
             thead_separator = ''
-            if self._inside_quoteblock:
-                thead_separator += '> '
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -868,36 +845,43 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines and self.outputlines[-1] == '>':
-                self.outputlines.pop()
-            start = self._quoteblocks_starts.pop()
-            if self._quoteblocks_starts:  # quote inside other
-                self.outputlines[start:] = [
-                    f'> {line}'
-                    for line in '\n'.join(self.outputlines[start:]).split('\n')
-                ]
-                self.current_line = '>'
+            if self.current_line:
                 self._save_current_line()
-                return
+            (
+                start,
+                self._inside_liblock,
+                self._current_list_type,
+                self._ul_marks,
+                self._ol_marks,
+            ) = self._quoteblocks.pop()
+            self._inside_liblock_first_p = False
+            if len(self.outputlines) == start:
+                self.outputlines.append('')
+            elif self.outputlines[-1].endswith('\n'):
+                self.outputlines[-1] = self.outputlines[-1][:-1]
+            elif not self.outputlines[-1]:
+                self.outputlines.pop()
+            indent = '   ' * len(self._current_list_type)
+            for i in range(start, len(self.outputlines)):
+                lines = self.outputlines[i].split('\n')
+                first = next((j for j, line in enumerate(lines) if line), 0)
+                self.outputlines[i] = '\n'.join(
+                    line if i in self._paragraphs and j != first and (
+                        line.strip(' ')[:1] not in {'', '>'}
+                    ) else f'{indent}> {line}'.rstrip(' ')
+                    for j, line in enumerate(lines)
+                )
             if not self._inside_liblock:
                 self._save_current_line()
-            self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
+            if not self._current_list_type:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             if not self._inside_htmlblock[1]:
-                if self._inside_quoteblock and not self._current_list_type:
-                    self.current_line = (
-                        self.current_line.rstrip('\n').replace('\n', '\n> ')
-                    )
-                    self._save_current_line()
-                    self.current_line = '>'
-                    self._save_current_line()
-                elif self._inside_liblock and not self._inside_quoteblock:
+                if self._inside_liblock or self._quoteblocks:
                     indent = '   ' * len(self._current_list_type)
-                    if self._current_list_type[-1][0] == 'ul':
+                    if indent and self._current_list_type[-1][0] == 'ul':
                         indent = indent[:-1]
                     self.current_line = (
                         self.current_line.rstrip('\n').replace(
-- 
2.43.0


From 3c606873e5fe6dc415835f55b2d83008d0604629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 60/65] fix: separate tables in list items from the blocks that
 follow them

---
 src/mdpo/po2md/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1481203..cde4441 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -598,6 +598,11 @@ class Po2Md:
             md4c.BlockType.CODE, md4c.BlockType.H, md4c.BlockType.HR,
             md4c.BlockType.HTML, md4c.BlockType.TABLE,
         }:
+            if self.outputlines and (
+                self.outputlines[-1].split('\n')[-1].lstrip(' ')[:1] == '|'
+            ) and block is not md4c.BlockType.HR:
+                # the block would be part of the table
+                self.outputlines.append('')
             # next paragraphs do not follow the mark of the list item
             self._inside_liblock_first_p = False
 
-- 
2.43.0


From d5e4a99cbde08d1837e28471394f9a4dfd0c4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 61/65] fix: keep list items that start with commands

---
 src/mdpo/po2md/__init__.py | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index cde4441..68c49a9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -308,6 +308,7 @@ class Po2Md:
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
+            '',  # the line when the HTML block started
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
@@ -604,7 +605,8 @@ class Po2Md:
                 # the block would be part of the table
                 self.outputlines.append('')
             # next paragraphs do not follow the mark of the list item
-            self._inside_liblock_first_p = False
+            if block is not md4c.BlockType.HTML:
+                self._inside_liblock_first_p = False
 
         if block is md4c.BlockType.P:
             self._inside_pblock = True
@@ -718,7 +720,7 @@ class Po2Md:
             if self._current_list_type:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            self._inside_htmlblock = [True, False]
+            self._inside_htmlblock = [True, False, self.current_line]
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -883,23 +885,25 @@ class Po2Md:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-            if not self._inside_htmlblock[1]:
-                if self._inside_liblock or self._quoteblocks:
-                    indent = '   ' * len(self._current_list_type)
-                    if indent and self._current_list_type[-1][0] == 'ul':
-                        indent = indent[:-1]
-                    self.current_line = (
-                        self.current_line.rstrip('\n').replace(
-                            '\n', f'\n{indent}',
-                        ) + '\n'
-                    )
-                    self._save_current_line()
-                else:
-                    self.current_line += '\n'
-            else:
+            _, with_commands, start = self._inside_htmlblock
+            if with_commands:
                 self.current_line = self.current_line.rstrip('\n')
-                if self.current_line.strip('> '):  # not only commands
-                    self.current_line += '\n\n'
+            if with_commands and self.current_line == start.rstrip('\n'):
+                # only commands
+                self.current_line = start if start.strip(' ') else ''
+            elif self._inside_liblock or self._quoteblocks:
+                indent = '   ' * len(self._current_list_type)
+                if indent and self._current_list_type[-1][0] == 'ul':
+                    indent = indent[:-1]
+                self.current_line = (
+                    self.current_line.rstrip('\n').replace(
+                        '\n', f'\n{indent}',
+                    ) + '\n'
+                )
+                self._save_current_line()
+                self._inside_liblock_first_p = False
+            else:
+                self.current_line += '\n\n' if with_commands else '\n'
             self._inside_htmlblock[0] = False
 
     def enter_span(self, span, details):
-- 
2.43.0


From b5badcdaa3ea6545bf3a191288e91cac99d207f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 62/65] fix: keep the whole information strings of code blocks

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 68c49a9..fdf4225 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -624,8 +624,8 @@ class Po2Md:
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
-                if details['lang']:
-                    self.current_line += attribute_text(details['lang'])
+                if details['info']:
+                    self.current_line += attribute_text(details['info'])
             else:
                 self._inside_indented_codeblock = True
                 if self._inside_liblock and not mark:
-- 
2.43.0


From fcd02fb077d576eea33e58c55ed73d1c82249c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 63/65] fix: keep the spaces of code inside tags other than
 <code>

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index f6fa99d..20093c6 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -218,7 +218,7 @@ class MdPo2HTML(HTMLParser):
                 else:
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 _last_start_tag = handled
-                if _last_start_tag == 'code':
+                if _last_start_tag in self.code_tags:
                     _inside_code = True
 
             elif handle == 'data':
@@ -262,7 +262,7 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                 _last_end_tag = handled
-                if _last_end_tag == 'code':
+                if _last_end_tag in self.code_tags:
                     _inside_code = False
             elif handle == 'comment':
                 raw_html_template += f'<!--{handled}-->'
-- 
2.43.0


From 14eb8c41500de892636f13682f11d862d7ea5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:29 +0000
Subject: [PATCH 64/65] fix: read the file of ignored messages as UTF-8 by
 default

---
 src/mdpo/md2po/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 0e83ca4..cde9f38 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -183,7 +183,9 @@ def parse_options(args):
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 
     if opts.ignore_msgids is not None:
-        with open(opts.ignore_msgids, encoding=opts.po_encoding) as f:
+        with open(
+            opts.ignore_msgids, encoding=opts.po_encoding or 'utf-8',
+        ) as f:
             opts.ignore_msgids = f.read().split('\n')
     else:
         opts.ignore_msgids = []
-- 
2.43.0


From 7f84f36748c8cf7ce6f3b6417d0fa6c0b261c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:29 +0000
Subject: [PATCH 65/65] fix: read and write Markdown files as UTF-8 by default
 in md2po2md function

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 14d0c1c..c3f4e1d 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -24,7 +24,7 @@ def markdown_to_pofile_to_markdown(
     po_wrapwidth=78,
     md_wrapwidth=80,
     po_encoding=None,
-    md_encoding=None,
+    md_encoding='utf-8',
     include_codeblocks=False,
     md2po_kwargs=None,
     po2md_kwargs=None,
-- 
2.43.0

