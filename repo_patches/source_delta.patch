From f0c01b5df685ab04e50075217714c609673cff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:58 +0000
Subject: [PATCH 01/55] fix: DFXP times with long fractions, fractional offsets
 or frames lose no microseconds

---
 pycaption/dfxp/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..1405355 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
@@ -189,16 +190,17 @@ class DFXPReader(BaseReader):
         microseconds += int(clock_time_match.group('seconds')) * \
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
-            microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+            # any digits past the sixth are below the microsecond
+            microseconds += int(
+                clock_time_match.group('sub_frames')[:6].ljust(6, '0'))
         elif clock_time_match.group('frames'):
-            microseconds += int(clock_time_match.group('frames')) / 30 * \
-                            MICROSECONDS_PER_UNIT["seconds"]
-        return int(microseconds)
+            microseconds += int(clock_time_match.group('frames')) * \
+                            MICROSECONDS_PER_UNIT["seconds"] // 30
+        return microseconds
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        value = Fraction(time_count_match.group('time_count'))
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
@@ -209,7 +211,7 @@ class DFXPReader(BaseReader):
         elif metric == "ms":
             microseconds = value * MICROSECONDS_PER_UNIT["milliseconds"]
         elif metric == "f":
-            microseconds = value / 30 * MICROSECONDS_PER_UNIT["seconds"]
+            microseconds = value * MICROSECONDS_PER_UNIT["seconds"] / 30
         elif metric == "t":
             raise NotImplementedError("The tick metric for time count is "
                                       "not currently implemented.")
-- 
2.43.0


From bb4f738866cafaaa938357a1e7df2b4a3b2e7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 02/55] fix: MicroDVD frame numbers convert to microseconds
 without float error

---
 pycaption/microdvd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..df8a061 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -35,7 +36,7 @@ class MicroDVDReader(BaseReader):
 
             if start == '0' and end == '0':
                 try:
-                    fps = float(txt)
+                    fps = Fraction(txt)
                     continue
                 except ValueError:
                     raise CaptionReadTimingError(
@@ -67,7 +68,7 @@ class MicroDVDReader(BaseReader):
         return caption_set
 
     def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+        return int(framenum * (10 ** 6) / Fraction(fps))
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From 81c8ee049e706529d20bdaa8151a73fa12c57e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:06 +0000
Subject: [PATCH 03/55] fix: all paragraphs of the last SAMI sync last four
 seconds

---
 pycaption/sami.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..920025a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,12 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
+        # Every paragraph of the last sync is still waiting for its end time
+        for caption in reversed(captions):
+            if caption.end != 0:
+                break
             # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+            caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 8cbccf2f07cb2ebe21cbdb957a878fd663e27277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:28 +0000
Subject: [PATCH 04/55] fix: written timestamps truncate fractional
 microseconds instead of rounding them

---
 pycaption/base.py   | 2 +-
 pycaption/webvtt.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..88a33b6 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -246,7 +246,7 @@ class Caption:
         return "".join(text_nodes).strip()
 
     def _format_timestamp(self, microseconds, msec_separator=None):
-        duration = timedelta(microseconds=microseconds)
+        duration = timedelta(microseconds=int(microseconds))
         hours, rem = divmod(duration.seconds, 3600)
         minutes, seconds = divmod(rem, 60)
         milliseconds = f"{duration.microseconds // 1000:03d}"
diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..bd06fd5 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -225,7 +225,7 @@ class WebVTTWriter(BaseWriter):
         )
 
     def _timestamp(self, ts):
-        td = datetime.timedelta(microseconds=ts)
+        td = datetime.timedelta(microseconds=int(ts))
         mm, ss = divmod(td.seconds, 60)
         hh, mm = divmod(mm, 60)
         s = f"{mm:02}:{ss:02}.{td.microseconds // 1000:03}"
-- 
2.43.0


From 4b0bc77357af2c19eaf7f16cb7ac932ac6cc7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:30 +0000
Subject: [PATCH 05/55] fix: SAMI sync times are integers for captions with
 fractional microseconds

---
 pycaption/sami.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 920025a..a07dd68 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -440,13 +440,13 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
 
         if self.last_time and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
-- 
2.43.0


From 754689f5e4884714a52c1c3de85601eb0dc5a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:33 +0000
Subject: [PATCH 06/55] fix: SAMI writes the end of a first caption that ends
 within the first millisecond

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a07dd68..7b23d64 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -442,7 +442,7 @@ class SAMIWriter(BaseWriter):
         """
         time = int(caption.start // 1000)
 
-        if self.last_time and time != self.last_time:
+        if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-- 
2.43.0


From ce8d36c50fd96b43ef27d05bd592af05c0e8112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:36 +0000
Subject: [PATCH 07/55] fix: the MULTI-LANGUAGE SRT line is no longer part of
 the preceding cue

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..3613c35 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -93,7 +93,7 @@ class SRTWriter(BaseWriter):
                 self._recreate_lang(caption_set.get_captions(lang))
             )
 
-        caption_content = 'MULTI-LANGUAGE SRT\n'.join(srt_captions)
+        caption_content = '\nMULTI-LANGUAGE SRT\n\n'.join(srt_captions)
         return caption_content
 
     def _recreate_lang(self, captions):
-- 
2.43.0


From d89b6565b7e7f1187e3b9f80abaa810ee4bc33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:50 +0000
Subject: [PATCH 08/55] fix: the DFXP writers no longer insert or drop spaces
 around styled words

---
 pycaption/dfxp/base.py   | 4 ++--
 pycaption/dfxp/extras.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 1405355..7164523 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -486,12 +486,12 @@ class DFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..2226f0a 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -195,7 +195,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content) + ' '
+                line += escape(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -215,12 +215,12 @@ class LegacyDFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
-- 
2.43.0


From 125396fac454a3e769bec65c8833d17dada096ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:53 +0000
Subject: [PATCH 09/55] fix: the SRT writer no longer inserts spaces between
 the text nodes of a line

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3613c35..035ab08 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -143,7 +143,7 @@ class SRTWriter(BaseWriter):
 
     def _recreate_line(self, srt, line):
         if line.type_ == CaptionNode.TEXT:
-            return srt + f'{line.content} '
+            return srt + line.content
         elif line.type_ == CaptionNode.BREAK:
             return srt + '\n'
         else:
-- 
2.43.0


From 6c0842c5e22d92275ff317be4a4c727774133306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:55 +0000
Subject: [PATCH 10/55] fix: consecutive breaks no longer end an SRT cue early

---
 pycaption/srt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 035ab08..f0677d4 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -134,7 +134,9 @@ class SRTWriter(BaseWriter):
                 new_content = self._recreate_line(new_content, node)
 
             # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            new_content = '\n'.join(
+                line for line in new_content.strip().split('\n')
+                if line.strip())
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From 252b8aec088fd6abcf08aca4697395425a280ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:24 +0000
Subject: [PATCH 11/55] fix: WebVTT text nodes cannot spell an arrow together,
 empty ones add no space inside a line

---
 pycaption/webvtt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index bd06fd5..5842208 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -411,7 +411,11 @@ class WebVTTWriter(BaseWriter):
                     s = ""
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
-                s += self._encode_illegal_characters(node.content) or "&nbsp;"
+                text = self._encode_illegal_characters(node.content)
+                if not text and (not s or s.endswith("\n")):
+                    text = "&nbsp;"
+                # the arrow must not be spelled by adjacent nodes either
+                s = (s + text).replace("-->", "--&gt;")
                 current_layout = node.layout_info
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
-- 
2.43.0


From ab61aa04d9c3e96dd6dc6ece97887ab665a21097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 12/55] fix: unknown WebVTT tags whose names start like known
 ones stay in the text

---
 pycaption/webvtt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 5842208..91f017c 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -17,9 +17,10 @@ from .geometry import HorizontalAlignmentEnum, Layout
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile(r"<v(\.[^\s.<>&]+)*\s+([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3}))"
+    r"([\s.][^>]*)?>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
-- 
2.43.0


From 596964391badc2714c29cecb52a02b9e603cc31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:42 +0000
Subject: [PATCH 13/55] fix: WebVTT numeric and all named character references
 are decoded

---
 pycaption/webvtt.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 91f017c..32f3462 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -2,6 +2,7 @@ import datetime
 import re
 import sys
 from copy import deepcopy
+from html import unescape
 
 from .base import BaseReader, BaseWriter, Caption, CaptionList, CaptionNode, CaptionSet
 from .exceptions import (
@@ -181,15 +182,8 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
-        return s
+        # Replace character references with plain unicode values
+        return unescape(s)
 
 
 class WebVTTWriter(BaseWriter):
-- 
2.43.0


From 6a50d0a2111890978f06a8332ffd1985e492a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:18 +0000
Subject: [PATCH 14/55] fix: SAMI character references and markup-like text are
 decoded exactly once

---
 pycaption/sami.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 7b23d64..5003366 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -39,6 +39,7 @@ import re
 from xml.dom import SyntaxErr
 from collections import deque
 from copy import deepcopy
+from html import unescape
 from html.entities import name2codepoint
 from html.parser import HTMLParser
 from logging import FATAL
@@ -703,25 +704,19 @@ class SAMIParser(HTMLParser):
             self.sami += f"</{closing_tag}>"
 
     def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
+        try:
+            self.sami += escape(chr(self.name2codepoint[name]))
+        except (KeyError, ValueError):
+            self.sami += escape(f'&{name}')
 
         self.last_element = ''
 
     def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
-        else:
-            self.sami += chr(int(name))
+        self.sami += escape(unescape(f'&#{name};'))
 
     # override the parser's handling of data
     def handle_data(self, data):
-        self.sami += data
+        self.sami += escape(data)
         self.last_element = ''
 
     # override the parser's feed function
@@ -751,7 +746,7 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub('(<[a-zA-Z][^<>]*);>', r'\1>', data)
         HTMLParser.feed(self, data)
 
         # close any tags that remain in the queue
-- 
2.43.0


From dc9c0e88cab32b67e88b3eeec19e9d016ee7da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:41 +0000
Subject: [PATCH 15/55] fix: DFXP and SAMI text wrapped over several source
 lines keeps all its words

---
 pycaption/base.py      | 42 ++++++++++++++++++++++++++++++++++++++++++
 pycaption/dfxp/base.py | 24 ++++++++++--------------
 pycaption/sami.py      | 11 +++--------
 3 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 88a33b6..f182405 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -1,4 +1,5 @@
 import os
+import re
 from collections import defaultdict
 from datetime import timedelta
 from numbers import Number
@@ -18,6 +19,47 @@ def force_byte_string(content):
         return content
 
 
+def collapse_line_wraps(nodes):
+    """
+    Captions of the XML-like formats may be wrapped over several source lines.
+    Collapse a newline and the indentation around it into one space, or into
+    nothing at the edges of a caption line, before the end of a style and
+    between texts that are positioned differently.
+
+    :param nodes: the list of CaptionNode objects of a caption
+    :rtype: list
+    """
+    previous = None  # the text before the current node, on the same line
+    wrapped = False  # whether a newline follows it
+    for node in nodes:
+        if node.type_ == CaptionNode.BREAK:
+            previous, wrapped = None, False
+        elif node.type_ == CaptionNode.STYLE and not node.start:
+            wrapped = False
+        elif node.type_ == CaptionNode.TEXT and node.content:
+            content = re.sub(r"[ \t]*[\n\r][ \t\n\r]*", "\n", node.content)
+            node.content = content.strip("\n").replace("\n", " ")
+            if not node.content:
+                wrapped = True
+                continue
+            if (
+                previous
+                and not previous.content[-1].isspace()
+                and previous.layout_info == node.layout_info
+            ):
+                if content.startswith("\n"):
+                    node.content = " " + node.content
+                elif wrapped:
+                    previous.content += " "
+            previous, wrapped = node, content.endswith("\n")
+
+    return [
+        node
+        for node in nodes
+        if node.type_ != CaptionNode.TEXT or node.content
+    ]
+
+
 class CaptionConverter:
     def __init__(self, captions=None):
         self.captions = captions if captions else []
diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 7164523..fb76355 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -7,7 +7,7 @@ from bs4 import BeautifulSoup, NavigableString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
-    DEFAULT_LANGUAGE_CODE,
+    DEFAULT_LANGUAGE_CODE, collapse_line_wraps,
 )
 from ..exceptions import (
     CaptionReadNoCaptions, CaptionReadSyntaxError, InvalidInputError,
@@ -141,6 +141,7 @@ class DFXPReader(BaseReader):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
         self._convert_tag_to_node(p_tag)
+        self.nodes = collapse_line_wraps(self.nodes)
         styles = self._convert_style(p_tag)
 
         if len(self.nodes) > 0:
@@ -220,19 +221,14 @@ class DFXPReader(BaseReader):
     def _convert_tag_to_node(self, tag):
         # convert text
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
-                # Escaping/unescaping xml entities is the responsibility of the
-                # xml parser used by BeautifulSoup in its initialization. The
-                # content of the tag variable at this point should be a plain
-                # unicode string with xml entities already converted to unicode
-                # characters.
-                tag_text = result.groups()[0]
-                node = CaptionNode.create_text(
-                    tag_text, layout_info=tag.layout_info)
-                self.nodes.append(node)
+            # Escaping/unescaping xml entities is the responsibility of the
+            # xml parser used by BeautifulSoup in its initialization. The
+            # content of the tag variable at this point should be a plain
+            # unicode string with xml entities already converted to unicode
+            # characters.
+            node = CaptionNode.create_text(
+                str(tag), layout_info=tag.layout_info)
+            self.nodes.append(node)
         # convert line breaks
         elif tag.name == 'br':
             self.nodes.append(
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 5003366..791e4a4 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -50,7 +50,7 @@ from cssutils import parseString, log, css as cssutils_css
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
-    DEFAULT_LANGUAGE_CODE,
+    DEFAULT_LANGUAGE_CODE, collapse_line_wraps,
 )
 from .exceptions import (
     CaptionReadNoCaptions, CaptionReadSyntaxError, InvalidInputError,
@@ -217,6 +217,7 @@ class SAMIReader(BaseReader):
                 self.line = []
 
                 self._translate_tag(p, layout_info)
+                self.line = collapse_line_wraps(self.line)
                 caption_layout = self._get_layout_class()(
                     alignment=self.first_alignment,
                     inherit_from=layout_info
@@ -258,13 +259,7 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
-                return
-            tag_text = result.groups()[0]
-            self.line.append(CaptionNode.create_text(tag_text, inherit_from))
+            self.line.append(CaptionNode.create_text(str(tag), inherit_from))
         # convert line breaks
         elif tag.name == 'br':
             self.line.append(CaptionNode.create_break(inherit_from))
-- 
2.43.0


From 6275bfe26a19a00d1e665438999e63afe78cd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:44 +0000
Subject: [PATCH 16/55] fix: comments inside DFXP paragraphs are not part of
 the text

---
 pycaption/dfxp/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index fb76355..4ffc10e 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -4,6 +4,7 @@ from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
+from bs4.element import CData, PreformattedString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -219,6 +220,10 @@ class DFXPReader(BaseReader):
         return int(microseconds)
 
     def _convert_tag_to_node(self, tag):
+        # comments and processing instructions are not displayed
+        if (isinstance(tag, PreformattedString)
+                and not isinstance(tag, CData)):
+            return
         # convert text
         if isinstance(tag, NavigableString):
             # Escaping/unescaping xml entities is the responsibility of the
-- 
2.43.0


From e198c89799a4feeb98ab52bcf94645bad6a8c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 17/55] fix: DFXP CDATA sections containing &apos; are not
 decoded

---
 pycaption/dfxp/base.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 4ffc10e..01ba955 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -532,11 +532,7 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         are usually html parsers, some more forgiving than others, and as such
         they do stuff very differently especially for xml files. We chose this
         one because even though the docs say it's slower, it's very forgiving
-        (it allows unescaped `<` characters, for example). It doesn't support
-        the `&apos;` entity, however, since it respects the HTML4 and not HTML5
-        syntax. Since this is valid XML 1.0, as a workaround we have to
-        manually replace the every occurrence of this entity in the string
-        before using the parser.
+        (it allows unescaped `<` characters, for example).
 
         The reason why we haven't used the 'xml' parser is that it destroys
         characters such as < or & (even the escaped ones).
@@ -558,9 +554,6 @@ class LayoutAwareDFXPParser(BeautifulSoup):
         http://www.crummy.com/software/BeautifulSoup/bs4/doc/#installing-a-parser
         """
 
-        # Work around for lack of '&apos;' support in html.parser
-        markup = markup.replace("&apos;", "'")
-
         super().__init__(
             markup, features, builder, parse_only, from_encoding, **kwargs)
 
-- 
2.43.0


From 854797f9ab001cc52a7352a42dcb3e15e32b9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:12 +0000
Subject: [PATCH 18/55] fix: DFXP language layouts are relativized, and fitted
 where captions use them

---
 pycaption/base.py      | 14 +++++++++-----
 pycaption/dfxp/base.py |  6 +++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index f182405..a6914de 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -120,13 +120,17 @@ class BaseWriter:
         self.video_height = video_height
         self.fit_to_screen = fit_to_screen
 
+    def _relativize(self, layout_info):
+        if layout_info and self.relativize:
+            # Transform absolute values (e.g. px) into percentages
+            layout_info = layout_info.as_percentage_of(
+                self.video_width, self.video_height
+            )
+        return layout_info
+
     def _relativize_and_fit_to_screen(self, layout_info):
         if layout_info:
-            if self.relativize:
-                # Transform absolute values (e.g. px) into percentages
-                layout_info = layout_info.as_percentage_of(
-                    self.video_width, self.video_height
-                )
+            layout_info = self._relativize(layout_info)
             if self.fit_to_screen:
                 # Make sure origin + extent <= 100%
                 layout_info = layout_info.fit_to_screen()
diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 01ba955..c78fdf3 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -343,10 +343,14 @@ class DFXPWriter(BaseWriter):
 
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
+        caption_set.layout_info = self._relativize(caption_set.layout_info)
         for lang in langs:
+            lang_layout = self._relativize(caption_set.get_layout_info(lang))
+            caption_set.set_layout_info(lang, lang_layout)
             for caption in caption_set.get_captions(lang):
+                # Captions without a layout take the one of their language
                 caption.layout_info = self._relativize_and_fit_to_screen(
-                    caption.layout_info)
+                    caption.layout_info or lang_layout)
                 for node in caption.nodes:
                     node.layout_info = self._relativize_and_fit_to_screen(
                         node.layout_info)
-- 
2.43.0


From 4a4053ccf978cd857c39af047ee2555212f20648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 19/55] fix: DFXP text nodes with a layout of their own are
 written in its region

---
 pycaption/dfxp/base.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index c78fdf3..873e408 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -448,10 +448,22 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        # The region of the element that encloses the text being written
+        p_region, _ = self.region_creator.get_positioning_info(
+            lang, caption_set, caption)
+        current_region = p_region
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += self._encode(node.content)
+                text = self._encode(node.content)
+                if node.layout_info and text.strip():
+                    region_id, attribs = (
+                        self.region_creator.get_positioning_info(
+                            lang, caption_set, caption, node))
+                    if region_id != current_region:
+                        attributes = self._span_region(region_id, attribs)
+                        text = f'<span{attributes}>{text}</span>'
+                line += text
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -459,6 +471,11 @@ class DFXPWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
+                current_region = p_region
+                if self.open_span and node.start and node.layout_info:
+                    current_region, _ = (
+                        self.region_creator.get_positioning_info(
+                            lang, caption_set, caption, node))
 
         return line.rstrip()
 
@@ -480,14 +497,7 @@ class DFXPWriter(BaseWriter):
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
-                if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{v_}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                styles += self._span_region(region_id, region_attribs)
 
             if styles:
                 if self.open_span:
@@ -501,6 +511,14 @@ class DFXPWriter(BaseWriter):
 
         return line
 
+    def _span_region(self, region_id, region_attribs):
+        """The attributes placing a <span> in the given region"""
+        attributes = f' region="{region_id}"'
+        if self.write_inline_positioning:
+            for key, value in list(region_attribs.items()):
+                attributes += f' {key}="{value}"'
+        return attributes
+
     def _encode(self, s):
         """
         Escapes XML 1.0 illegal or discouraged characters
-- 
2.43.0


From 51ff5efa295d52a2ec2f69dd526fd148b4995f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 20/55] fix: sizes followed by a line break or using non-ASCII
 digits are rejected

---
 pycaption/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..6940a65 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -503,8 +503,8 @@ class Size:
         :rtype: Size
         """
         size_pattern = re.compile(
-            r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
+            r"^(((?P<value>[0-9]+(\.[0-9]+)?)(?P<unit>"
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)\Z")
         match = size_pattern.search(string)
         if not match:
             raise CaptionReadSyntaxError(
-- 
2.43.0


From 0b5946bfa74753629047c85b3cd25599284ed2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 21/55] fix: WebVTT nodes without a layout are not shown with
 that of a later node

---
 pycaption/webvtt.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 32f3462..f8ca594 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -263,7 +263,9 @@ class WebVTTWriter(BaseWriter):
         """
         :type caption: Caption
         """
-        layout_groups = self._group_cues_by_layout(caption.nodes, caption_set)
+        layout_groups = self._group_cues_by_layout(
+            caption.nodes, caption_set, caption.layout_info or self.global_layout
+        )
 
         start = self._timestamp(caption.start)
         end = self._timestamp(caption.end)
@@ -380,10 +382,11 @@ class WebVTTWriter(BaseWriter):
 
         return cue_settings
 
-    def _group_cues_by_layout(self, nodes, caption_set):
+    def _group_cues_by_layout(self, nodes, caption_set, default_layout=None):
         """
         Convert a Caption's nodes to WebVTT cue or cues (depending on
         whether they have the same positioning or not).
+        Nodes without a layout have the default one.
         """
         if not nodes:
             return []
@@ -397,13 +400,22 @@ class WebVTTWriter(BaseWriter):
         # A properly encoded WebVTT string (plain unicode must be properly
         # escaped before being appended to this string)
         s = ""
+        has_text = False
+        open_tags = []
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                layout = node.layout_info or default_layout or None
+                if not has_text:
+                    current_layout = layout
+                elif layout != current_layout and node.content.strip():
                     # If the positioning changes from one text node to
-                    # another, a new WebVTT cue has to be created.
+                    # another, a new WebVTT cue has to be created. The tags
+                    # that are open continue in it.
+                    s += "".join(tags[1] for tags in reversed(open_tags))
                     layout_groups.append((s, current_layout))
-                    s = ""
+                    s = "".join(tags[0] for tags in open_tags)
+                    current_layout = layout
+                has_text = has_text or bool(node.content.strip())
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 text = self._encode_illegal_characters(node.content)
@@ -411,7 +423,6 @@ class WebVTTWriter(BaseWriter):
                     text = "&nbsp;"
                 # the arrow must not be spelled by adjacent nodes either
                 s = (s + text).replace("-->", "--&gt;")
-                current_layout = node.layout_info
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
                     node.content, caption_set
@@ -426,8 +437,11 @@ class WebVTTWriter(BaseWriter):
                         tags = self._convert_style_to_text_tag(style)
                         if node.start:
                             s += tags[0]
+                            open_tags.append(tags)
                         else:
                             s += tags[1]
+                            if tags in open_tags:
+                                open_tags.remove(tags)
 
                 # TODO: Refactor pycaption and eliminate the concept of a
                 # "Style node"
-- 
2.43.0


From 70e1b8983bc2926ba2acf67c2cb6890d15a975f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 22/55] fix: WebVTT cues split by layout are separated by a
 blank line

---
 pycaption/webvtt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index f8ca594..f672c79 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -287,6 +287,9 @@ class WebVTTWriter(BaseWriter):
             if not layout:
                 layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
+            if output and not output.endswith("\n\n"):
+                # cues are separated by a blank line
+                output += "\n"
             output += timespan + cue_settings + "\n"
             output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
 
-- 
2.43.0


From f74064c824a9eece801aad3065e2495c9dd88371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 23/55] fix: SCC preamble codes missing from the style tables
 end the italics of the row above

---
 pycaption/scc/constants.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..2026abf 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -86,12 +86,12 @@ COMMANDS = {
     '15f8': '<$>{break}<$>',
     '94fe': '<$>{break}<$>',
     '94fd': '<$>{break}<$>',
-    '94fc': '<$>{break}<$>',
+    '947c': '<$>{break}<$>',
     '94fb': '<$>{break}<$>',
     '944f': '<$>{break}<$>{italic}<$>',
     '944c': '<$>{break}<$>',
     '944a': '<$>{break}<$>',
-    '92fc': '<$>{break}<$>',
+    '927c': '<$>{break}<$>',
     '1051': '<$>{break}<$>',
     '1052': '<$>{break}<$>',
     '1054': '<$>{break}<$>',
@@ -157,7 +157,7 @@ COMMANDS = {
     '13ef': '<$>{break}<$>{italic}<$>',
     '94f2': '<$>{break}<$>',
     '97fb': '<$>{break}<$>',
-    '97fc': '<$>{break}<$>',
+    '977c': '<$>{break}<$>',
     '1658': '<$>{break}<$>',
     '97fd': '<$>{break}<$>',
     '97fe': '<$>{break}<$>',
@@ -198,7 +198,7 @@ COMMANDS = {
     '15ef': '<$>{break}<$>{italic}<$>',
     '16fe': '<$>{break}<$>',
     '16fd': '<$>{break}<$>',
-    '16fc': '<$>{break}<$>',
+    '167c': '<$>{break}<$>',
     '16fb': '<$>{break}<$>',
     '1367': '<$>{break}<$>',
     '94ef': '<$>{break}<$>{italic}<$>',
@@ -250,7 +250,7 @@ COMMANDS = {
     '927f': '<$>{break}<$>',
     '134a': '<$>{break}<$>',
     '15fb': '<$>{break}<$>',
-    '15fc': '<$>{break}<$>',
+    '157c': '<$>{break}<$>',
     '15fd': '<$>{break}<$>',
     '15fe': '<$>{break}<$>',
     '1546': '<$>{break}<$>',
@@ -261,7 +261,7 @@ COMMANDS = {
     '13fd': '<$>{break}<$>',
     '13fe': '<$>{break}<$>',
     '13fb': '<$>{break}<$>',
-    '13fc': '<$>{break}<$>',
+    '137c': '<$>{break}<$>',
     '92e9': '<$>{break}<$>',
     '92e6': '<$>{break}<$>',
     '9458': '<$>{break}<$>',
@@ -446,7 +446,7 @@ COMMANDS = {
     '91fe': '<$>{break}<$>',
     '10d9': '<$>{break}<$>',
     '91fb': '<$>{break}<$>',
-    '91fc': '<$>{break}<$>',
+    '917c': '<$>{break}<$>',
     '946e': '<$>{break}<$>{italic}<$>',
     '946d': '<$>{break}<$>',
     '946b': '<$>{break}<$>',
@@ -1134,7 +1134,7 @@ COMMAND_LABELS = {
     "9179": "row 02, column 16, with white underlined text.",
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
-    "91fc": "row 02, column 24, with plain white text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
     "917f": "row 02, column 28, with white underlined text.",
@@ -1198,7 +1198,7 @@ COMMAND_LABELS = {
     "9279": "row 04, column 16, with white underlined text.",
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
-    "92fc": "row 04, column 24, with plain white text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
     "927f": "row 04, column 28, with white underlined text.",
@@ -1236,7 +1236,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1262,7 +1262,7 @@ COMMAND_LABELS = {
     "1579": "row 06, column 16, with white underlined text.",
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
-    "15fc": "row 06, column 24, with plain white text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
     "157f": "row 06, column 28, with white underlined text.",
@@ -1300,7 +1300,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1326,7 +1326,7 @@ COMMAND_LABELS = {
     "1679": "row 08, column 16, with white underlined text.",
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
-    "16fc": "row 08, column 24, with plain white text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
     "167f": "row 08, column 28, with white underlined text.",
@@ -1390,7 +1390,7 @@ COMMAND_LABELS = {
     "9779": "row 10, column 16, with white underlined text.",
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
-    "97fc": "row 10, column 24, with plain white text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
     "977f": "row 10, column 28, with white underlined text.",
@@ -1460,7 +1460,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1486,7 +1486,7 @@ COMMAND_LABELS = {
     "1379": "row 13, column 16, with white underlined text.",
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
-    "13fc": "row 13, column 24, with plain white text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
     "137f": "row 13, column 28, with white underlined text.",
@@ -1550,7 +1550,7 @@ COMMAND_LABELS = {
     "9479": "row 15, column 16, with white underlined text.",
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
-    "94fc": "row 15, column 24, with plain white text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
     "947f": "row 15, column 28, with white underlined text.",
-- 
2.43.0


From 1b2c410f6fff9a58622b2ebeb8b17f027e1875df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 24/55] fix: SCC character 7f is a solid block

---
 pycaption/scc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index 2026abf..88e7986 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -641,7 +641,7 @@ CHARACTERS = {
     '7c': '÷',
     'fd': 'Ñ',
     'fe': 'ñ',
-    '7f': '',
+    '7f': '█',
     '80': ''
 }
 
-- 
2.43.0


From ff37fafc0e89ed6eec472803589d304f2725282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 25/55] fix: SCC pop-on captions are not placed relative to the
 rows of the one before

---
 pycaption/scc/__init__.py                |  2 ++
 pycaption/scc/specialized_collections.py |  1 +
 pycaption/scc/state_machines.py          | 16 +++++++++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..e031530 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -453,6 +453,7 @@ class SCCReader(BaseReader):
         # clear pop_on buffer
         elif word == "94ae":
             self.buffer = self.node_creator_factory.new_creator()
+            self.node_creator_factory.position_tracker.start_new_screen()
 
         # display pop_on buffer [End Of Caption]
         elif word == "942f":
@@ -465,6 +466,7 @@ class SCCReader(BaseReader):
             cue = PopOnCue(buffer=deepcopy(self.buffer), start=self.time, end=0)
             self.pop_ons_queue.appendleft(cue)
             self.buffer = self.node_creator_factory.new_creator()
+            self.node_creator_factory.position_tracker.start_new_screen()
 
         # roll up captions [Carriage Return]
         elif word == "94ad":
diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 1bd5bf9..d32d629 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -363,6 +363,7 @@ class InstructionNodeCreator:
             self._position_tracer.acknowledge_position_changed()
 
         node.add_chars(*chars)
+        self._position_tracer.acknowledge_text_added()
 
     @staticmethod
     def get_style_for_command(command):
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..16265e5 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -14,11 +14,25 @@ class _PositioningTracker:
         self._positions = [positioning]
         self._break_required = False
         self._repositioning_required = False
+        # Whether the next position is that of the first text of a screen
+        self._new_screen = False
         # Since the actual column is not applied when encountering a line break
         # this attribute is used to store it and determine by comparison if the
         # next positioning is actually a Tab Offset
         self._last_column = None
 
+    def start_new_screen(self):
+        """The text that follows is not related to the text so far: unless it
+        comes first, the next position is not a change relative to it.
+        """
+        self._break_required = False
+        self._repositioning_required = False
+        self._new_screen = True
+
+    def acknowledge_text_added(self):
+        """Acknowledge that the screen contains text"""
+        self._new_screen = False
+
     def update_positioning(self, positioning):
         """Being notified of a position change, updates the internal state,
         to as to be able to tell if it was a trivial change (a simple line
@@ -29,7 +43,7 @@ class _PositioningTracker:
         """
         current = self._positions[-1]
 
-        if not current:
+        if not current or self._new_screen:
             if positioning:
                 # Set the positioning for the first time
                 self._positions = [positioning]
-- 
2.43.0


From f87e29482a79685dfdad7e88e5562a90dfee866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 26/55] fix: SCC backspaces and extended characters that start
 a row do not delete the end of the row above

---
 pycaption/scc/specialized_collections.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index d32d629..b40d68d 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -539,12 +539,24 @@ class InstructionNodeCreator:
         """
         Move cursor back one position and delete that character
         """
+        # nothing was written on the new row yet
+        if (
+            self._position_tracer.is_linebreak_required()
+            or self._position_tracer.is_repositioning_required()
+        ):
+            return
         node = self.get_previous_text_node()
         # in case of no previous text nodes or
         # if the backspace is required while no character
         # do nothing
         if node is None:
             return
+        # the previous text is on another row
+        if any(
+            x.is_explicit_break() or x.requires_repositioning()
+            for x in self._collection[self._collection.index(node):]
+        ):
+            return
         last_char = node.text[-1]
         delete_previous_condition = (
             word in EXTENDED_CHARS and last_char not in EXTENDED_CHARS.values()
-- 
2.43.0


From af8f1365f2f209951e7fe63ac1177d108e9886bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 27/55] fix: SCC background codes following backspaced text do
 not raise IndexError

---
 pycaption/scc/specialized_collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index b40d68d..8fcffea 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -399,6 +399,7 @@ class InstructionNodeCreator:
             if (
                 len(self._collection) > 0
                 and self._collection[-1].is_text_node()
+                and self._collection[-1].text
                 and self._collection[-1].text[-1].isspace()
             ):
                 self._collection[-1].text = self._collection[-1].text[:-1]
-- 
2.43.0


From 5482759478b52940fa632a3cbdc3ea3c0d453ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 28/55] fix: SCC commands repeated at the start of the next
 line are not doubled commands

---
 pycaption/scc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index e031530..3ae8f21 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -325,6 +325,9 @@ class SCCReader(BaseReader):
         parts = r.findall(line.lower())
 
         self.time_translator.start_at(parts[0][0])
+        # the second half of a doubled command directly follows the first one,
+        # a command repeated on another line is a new command
+        self.last_command = ""
         word_list = parts[0][2].split(" ")
 
         for idx, word in enumerate(word_list):
-- 
2.43.0


From 7b476ebeb6828f26e4278c4ead005531ef1ca465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:18 +0000
Subject: [PATCH 29/55] fix: SCC over-long lines are reported when captions
 share their start time

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 3ae8f21..5f52649 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -254,10 +254,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From e67b6f6a7c203191ca92ce5756fd9d2e1bc023b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 30/55] fix: SCC Erase Non-displayed Memory does not erase
 roll-up and paint-on text

---
 pycaption/scc/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5f52649..9371885 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -452,8 +452,10 @@ class SCCReader(BaseReader):
 
         # clear pop_on buffer
         elif word == "94ae":
-            self.buffer = self.node_creator_factory.new_creator()
-            self.node_creator_factory.position_tracker.start_new_screen()
+            # roll-up and paint-on text goes to the displayed memory
+            self.buffer_dict["pop"] = self.node_creator_factory.new_creator()
+            if self.buffer_dict.active_key == "pop":
+                self.node_creator_factory.position_tracker.start_new_screen()
 
         # display pop_on buffer [End Of Caption]
         elif word == "942f":
-- 
2.43.0


From 56b34a46094ba2c461ecf8f58d542557d2f8907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 31/55] fix: SCC roll-up captions end when the next one begins

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 9371885..7246192 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -431,6 +431,7 @@ class SCCReader(BaseReader):
 
         # if command is roll_up 2, 3 or 4 rows
         elif word in ("9425", "9426", "94a7"):
+            rolling_up = self.buffer_dict.active_key == "roll"
             self.buffer_dict.set_active("roll")
 
             # count how many lines are expected
@@ -450,6 +451,10 @@ class SCCReader(BaseReader):
             self.roll_rows = []
             self.time = self.time_translator.get_time()
 
+            # the previous roll-up caption ends when this one begins
+            if rolling_up:
+                self.caption_stash.correct_last_timing(self.time, force=True)
+
         # clear pop_on buffer
         elif word == "94ae":
             # roll-up and paint-on text goes to the displayed memory
-- 
2.43.0


From 143165345c8fb890c6a0624d2330a379b3829b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:11 +0000
Subject: [PATCH 32/55] fix: SCC writer does not put a hyphenated word on two
 rows

---
 pycaption/scc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 7246192..e6b9650 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -596,7 +596,9 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [
+            textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines
+        ]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0


From bb5627a3edc88f084241be99697869e725fe4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 33/55] fix: SCC writer transmits the first caption ahead of
 its start time

---
 pycaption/scc/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index e6b9650..85a68d8 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -571,13 +571,13 @@ class SCCWriter(BaseWriter):
         for index, (code, start, end) in enumerate(codes):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
-            code_start = start - code_time_microseconds
+            code_start = max(start - code_time_microseconds, 0)
+            codes[index] = (code, code_start, end)
             if index == 0:
                 continue
             previous_code, previous_start, previous_end = codes[index - 1]
             if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
                 codes[index - 1] = (previous_code, previous_start, None)
-            codes[index] = (code, code_start, end)
 
         # PASS 3:
         # Write captions.
-- 
2.43.0


From 41f3c087d78bba0fb6df6947dc0f8e5a1cbbbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:15 +0000
Subject: [PATCH 34/55] fix: SRT and SCC detection do not raise IndexError on
 content with too few lines

---
 pycaption/scc/__init__.py | 2 +-
 pycaption/srt.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 85a68d8..f7d403c 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -206,7 +206,7 @@ class SCCReader(BaseReader):
         :rtype: bool
         """
         lines = content.splitlines()
-        if lines[0] == HEADER:
+        if lines and lines[0] == HEADER:
             return True
         else:
             return False
diff --git a/pycaption/srt.py b/pycaption/srt.py
index f0677d4..2175533 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -9,7 +9,7 @@ from .exceptions import CaptionReadNoCaptions, InvalidInputError
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = content.splitlines()
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From edac46b5d2c2922e519f2641d59a0d2b34029680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 35/55] fix: captions and caption sets without styles do not
 share one dictionary

---
 pycaption/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index a6914de..dd5b51c 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -221,7 +221,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -249,7 +249,7 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -352,14 +352,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From 2ae9587c1b70f0aacadb7ca9b7ac9951ee34ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 36/55] fix: SCC readers can be used again

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index f7d403c..96f7a0f 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Forget everything about the content read before"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From a958e382ea66525074b479fbcaec2b8fe9a63ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:21 +0000
Subject: [PATCH 37/55] fix: SAMI languages are listed in order of first
 appearance

---
 pycaption/sami.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 791e4a4..e63024b 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -640,7 +640,7 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        self.langs = []
         self.last_element = ''
         self.name2codepoint = name2codepoint.copy()
         self.name2codepoint['apos'] = 0x0027
@@ -665,7 +665,8 @@ class SAMIParser(HTMLParser):
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            if lang not in self.langs:
+                self.langs.append(lang)
 
         # clean-up line breaks
         if tag == 'br':
@@ -718,7 +719,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
-- 
2.43.0


From ec66a49aee19007c0ab0873b41e590b64f29cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:02 +0000
Subject: [PATCH 38/55] fix: an unclosed style does not reach the next file
 written by the same DFXP or SAMI writer

---
 pycaption/dfxp/base.py   | 1 +
 pycaption/dfxp/extras.py | 1 +
 pycaption/sami.py        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 873e408..e00e044 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -339,6 +339,7 @@ class DFXPWriter(BaseWriter):
         else:
             dfxp.find('tt')['xml:lang'] = DFXP_DEFAULT_LANGUAGE_CODE
 
+        self.open_span = False
         caption_set = deepcopy(caption_set)
 
         # Loop through all captions/nodes and apply transformations to layout
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 2226f0a..2d85818 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -97,6 +97,7 @@ class LegacyDFXPWriter(BaseWriter):
         self.open_span = False
 
     def write(self, caption_set, force=''):
+        self.open_span = False
         caption_set = deepcopy(caption_set)
         caption_set = merge_concurrent_captions(caption_set)
 
diff --git a/pycaption/sami.py b/pycaption/sami.py
index e63024b..5ac4fce 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -386,6 +386,7 @@ class SAMIWriter(BaseWriter):
         self.last_time = None
 
     def write(self, caption_set):
+        self.open_span = False
         caption_set = deepcopy(caption_set)
         sami = BeautifulSoup(SAMI_BASE_MARKUP, "lxml-xml")
 
-- 
2.43.0


From 996dd229f5c9db0a827828fefe3b044701ca51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 39/55] fix: SAMIWriter keeps the captions of a language when
 the ones before it have none

---
 pycaption/sami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 5ac4fce..10b087e 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -497,6 +497,8 @@ class SAMIWriter(BaseWriter):
             if later:
                 last_sync = later[0]
                 last_sync.insert_before(sync)
+            else:
+                sami.body.append(sync)
         return sami, sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
-- 
2.43.0


From 72791881c53a606b57ef3abfbf10650007e010f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 40/55] fix: SAMIWriter only uses a caption's class for the
 language the class is of

---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 10b087e..57ee5d7 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -514,7 +514,8 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            if 'lang' in captions.get_style(caption.style['class']):
+            style_lang = captions.get_style(caption.style['class'])['lang']
+            if style_lang == lang:
                 return caption.style['class']
         except KeyError:
             pass
-- 
2.43.0


From 6d738a31fc69b5f65944e856036df65232351cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:24 +0000
Subject: [PATCH 41/55] fix: SAMIWriter writes a rule for every language whose
 captions refer to it

---
 pycaption/sami.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 57ee5d7..4009b37 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -530,8 +530,10 @@ class SAMIWriter(BaseWriter):
                     attr, value, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
-            if lang_string not in stylesheet:
+            classes = [self._recreate_p_lang(caption, lang, caption_set)
+                       for caption in caption_set.get_captions(lang)]
+            # the rule is needed unless all captions have a class of their own
+            if lang in classes or not classes:
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
 
-- 
2.43.0


From fc1ba4be81ea0cabaccd463764b1147763716d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 42/55] fix: DFXPReader keeps the captions of every div of a
 language

---
 pycaption/dfxp/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index e00e044..8089d60 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -108,7 +108,11 @@ class DFXPReader(BaseReader):
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
-- 
2.43.0


From d15f550c619802106ab0c05d295ee25354bf10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 43/55] fix: DFXPReader reads the captions of a nested div once

---
 pycaption/dfxp/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 8089d60..14220da 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -138,7 +138,8 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p')
+             if p_tag.get_text().strip() and p_tag.find_parent('div') is div],
             div.layout_info
         )
 
-- 
2.43.0


From 9181ade0efcbca39cf7daf18f85c0c08a2d37458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 44/55] fix: SAMIReader does not list the captions of en-US
 under en too

---
 pycaption/sami.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 4009b37..466a2b5 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -192,7 +192,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', attrs={'lang': language}):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -670,6 +670,8 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [(attr, value) for attr, value in attrs
+                     if attr.lower() != 'lang']
             attrs.append(('lang', lang))
             if lang not in self.langs:
                 self.langs.append(lang)
-- 
2.43.0


From f4920842950b717374a7185e3219d16be01c5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:12 +0000
Subject: [PATCH 45/55] fix: DFXP writers do not italicise spans whose italics
 are off

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 14220da..fb7152d 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1192,7 +1192,7 @@ def _recreate_style(content, dfxp):
             dfxp_style['style'] = content['class']
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = content['font-family']
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 2d85818..3d2900e 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -237,7 +237,7 @@ class LegacyDFXPWriter(BaseWriter):
                 dfxp_style['style'] = content['class']
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = content['font-family']
-- 
2.43.0


From d7442f1013384b776656e2086b57358aece2a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:26 +0000
Subject: [PATCH 46/55] fix: DFXP writers escape style values and language
 codes

---
 pycaption/dfxp/base.py   | 11 ++++++++---
 pycaption/dfxp/extras.py |  7 ++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index fb7152d..3161450 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -340,7 +340,7 @@ class DFXPWriter(BaseWriter):
         langs = caption_set.get_languages()
         if force in langs:
             langs = [force]
-            dfxp.find('tt')['xml:lang'] = force
+            dfxp.find('tt')['xml:lang'] = escape_attribute(force)
         else:
             dfxp.find('tt')['xml:lang'] = DFXP_DEFAULT_LANGUAGE_CODE
 
@@ -377,7 +377,7 @@ class DFXPWriter(BaseWriter):
 
         for lang in langs:
             div = dfxp.new_tag('div')
-            div['xml:lang'] = lang
+            div['xml:lang'] = escape_attribute(lang)
             self._assign_positioning_data(div, lang, caption_set)
 
             for caption in caption_set.get_captions(lang):
@@ -1203,7 +1203,12 @@ def _recreate_style(content, dfxp):
     if 'display-align' in content:
         dfxp_style['tts:displayAlign'] = content['display-align']
 
-    return dfxp_style
+    return {key: escape_attribute(value) for key, value in dfxp_style.items()}
+
+
+def escape_attribute(value):
+    """Escapes a value that will be written in an attribute"""
+    return escape(str(value), {'"': '&quot;'})
 
 
 # TODO - highly cacheable. use WeakValueDict to improve performance
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 3d2900e..8b5afc3 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,7 @@ from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import DFXPWriter, DFXP_DEFAULT_REGION, escape_attribute
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -125,7 +125,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for lang in langs:
             div = dfxp.new_tag('div')
-            div['xml:lang'] = lang
+            div['xml:lang'] = escape_attribute(lang)
 
             for caption in caption_set.get_captions(lang):
                 if caption.style:
@@ -248,4 +248,5 @@ class LegacyDFXPWriter(BaseWriter):
         if 'display-align' in content:
             dfxp_style['tts:displayAlign'] = content['display-align']
 
-        return dfxp_style
+        return {key: escape_attribute(value)
+                for key, value in dfxp_style.items()}
-- 
2.43.0


From b7cb3865560ce325c25f1122e136c01593111b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:28 +0000
Subject: [PATCH 47/55] fix: DFXP writers write styles of any name with a valid
 id

---
 pycaption/dfxp/base.py   | 22 ++++++++++++++++++----
 pycaption/dfxp/extras.py | 13 ++++++++-----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 3161450..26bbc0c 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -426,13 +426,13 @@ class DFXPWriter(BaseWriter):
     def _recreate_styling_tag(self, style, content, dfxp):
         # TODO - should be drastically simplified: if attributes : append
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        dfxp_style.attrs.update({'xml:id': create_style_id(style)})
 
         attributes = _recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': create_style_id(style)})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -1188,8 +1188,9 @@ def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+        style_id = create_style_id(content['class'])
+        if dfxp.find("style", {"xml:id": style_id}):
+            dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if content.get('italics'):
@@ -1206,6 +1207,19 @@ def _recreate_style(content, dfxp):
     return {key: escape_attribute(value) for key, value in dfxp_style.items()}
 
 
+def create_style_id(name):
+    """Returns the xml:id of the style with the given name: the name itself,
+    unless it has characters that ids can't have. Different names always have
+    different ids.
+    """
+    style_id = re.sub(r'_(?=x[0-9A-F]*_)', '_x005F_', name)
+    style_id = re.sub(
+        r'^[^A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u00FF]'
+        r'|[^A-Za-z0-9._\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u00FF-]',
+        lambda match: f'_x{ord(match.group()):04X}_', style_id)
+    return style_id or '_x_'
+
+
 def escape_attribute(value):
     """Escapes a value that will be written in an attribute"""
     return escape(str(value), {'"': '&quot;'})
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 8b5afc3..3597e43 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,9 @@ from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION, escape_attribute
+from .base import (
+    DFXPWriter, DFXP_DEFAULT_REGION, create_style_id, escape_attribute,
+)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -166,13 +168,13 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_styling_tag(self, style, content, dfxp):
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        dfxp_style.attrs.update({'xml:id': create_style_id(style)})
 
         attributes = self._recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': create_style_id(style)})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -233,8 +235,9 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+            style_id = create_style_id(content['class'])
+            if dfxp.find("style", {"xml:id": style_id}):
+                dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if content.get('italics'):
-- 
2.43.0


From d40bc05346143ace0032c4b95dcac77f1129e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:30 +0000
Subject: [PATCH 48/55] fix: DFXP writers keep all the styles an element refers
 to

---
 pycaption/dfxp/base.py   | 18 ++++++++++++++----
 pycaption/dfxp/extras.py | 10 ++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 26bbc0c..cc82b23 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1187,10 +1187,11 @@ class RegionCreator:
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
-    if 'class' in content:
-        style_id = create_style_id(content['class'])
-        if dfxp.find("style", {"xml:id": style_id}):
-            dfxp_style['style'] = style_id
+    style_ids = [create_style_id(name) for name in get_classes(content)]
+    style_ids = [style_id for style_id in style_ids
+                 if dfxp.find("style", {"xml:id": style_id})]
+    if style_ids:
+        dfxp_style['style'] = ' '.join(style_ids)
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if content.get('italics'):
@@ -1207,6 +1208,15 @@ def _recreate_style(content, dfxp):
     return {key: escape_attribute(value) for key, value in dfxp_style.items()}
 
 
+def get_classes(content):
+    """Returns the names of all the classes a style dictionary refers to"""
+    if 'classes' in content:
+        return content['classes']
+    if 'class' in content:
+        return [content['class']]
+    return []
+
+
 def create_style_id(name):
     """Returns the xml:id of the style with the given name: the name itself,
     unless it has characters that ids can't have. Different names always have
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 3597e43..ceb1bc8 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -8,6 +8,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPWriter, DFXP_DEFAULT_REGION, create_style_id, escape_attribute,
+    get_classes,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -234,10 +235,11 @@ class LegacyDFXPWriter(BaseWriter):
         if 'region' in content:
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
-        if 'class' in content:
-            style_id = create_style_id(content['class'])
-            if dfxp.find("style", {"xml:id": style_id}):
-                dfxp_style['style'] = style_id
+        style_ids = [create_style_id(name) for name in get_classes(content)]
+        style_ids = [style_id for style_id in style_ids
+                     if dfxp.find("style", {"xml:id": style_id})]
+        if style_ids:
+            dfxp_style['style'] = ' '.join(style_ids)
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if content.get('italics'):
-- 
2.43.0


From 34321bdd049cf5dfa7a29134c2bfb1ce688d1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 49/55] fix: DFXP writers keep references to styles that come
 later

---
 pycaption/dfxp/base.py   | 22 +++++++++++++++++++++-
 pycaption/dfxp/extras.py |  4 ++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index cc82b23..67033e0 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -362,7 +362,7 @@ class DFXPWriter(BaseWriter):
                         node.layout_info)
 
         # Create the styles in the <styling> section, or a default style.
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in referenced_first(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
@@ -1217,6 +1217,26 @@ def get_classes(content):
     return []
 
 
+def referenced_first(styles):
+    """Orders styles such that each one follows those it refers to
+
+    :param styles: list of (name, style dictionary) tuples
+    """
+    pending = dict(styles)
+    ordered = []
+
+    def visit(name):
+        if name in pending:
+            style = pending.pop(name)
+            for class_ in get_classes(style):
+                visit(class_)
+            ordered.append((name, style))
+
+    for name, _ in styles:
+        visit(name)
+    return ordered
+
+
 def create_style_id(name):
     """Returns the xml:id of the style with the given name: the name itself,
     unless it has characters that ids can't have. Different names always have
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index ceb1bc8..71ab8f2 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -8,7 +8,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPWriter, DFXP_DEFAULT_REGION, create_style_id, escape_attribute,
-    get_classes,
+    get_classes, referenced_first,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -107,7 +107,7 @@ class LegacyDFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
 
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in referenced_first(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
-- 
2.43.0


From 8c978c3cdd41170f86750f853e53db72eed62c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:34 +0000
Subject: [PATCH 50/55] fix: the regions of DFXP documents do not have the id
 of a style

---
 pycaption/dfxp/base.py   | 16 +++++++++++-----
 pycaption/dfxp/extras.py | 11 +++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 67033e0..00e26cb 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1020,6 +1020,9 @@ class RegionCreator:
         self._region_map = {}
         self._id_seed = 0
         self._assigned_region_ids = set()
+        self._default_region_id = DFXP_DEFAULT_REGION_ID
+        if dfxp.find('style', {'xml:id': DFXP_DEFAULT_REGION_ID}):
+            self._default_region_id = self._get_new_id()
 
     @staticmethod
     def _collect_unique_regions(caption_set, ignore_region):
@@ -1096,7 +1099,7 @@ class RegionCreator:
         # Creates the default region
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1112,9 +1115,12 @@ class RegionCreator:
 
         :type prefix: str
         """
-        new_id = f'{prefix}{self._id_seed}'
-        self._id_seed += 1
-        return new_id
+        while True:
+            new_id = f'{prefix}{self._id_seed}'
+            self._id_seed += 1
+            # regions and styles can't share an id
+            if not self._dfxp.find('style', {'xml:id': new_id}):
+                return new_id
 
     def get_positioning_info(
             self, lang, caption_set=None, caption=None, caption_node=None):
@@ -1160,7 +1166,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 71ab8f2..a19b8de 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -116,8 +116,12 @@ class LegacyDFXPWriter(BaseWriter):
 
         # XXX For now we will always use this default region. In the future if
         # regions are provided, they will be kept
+        region_id = LEGACY_DFXP_DEFAULT_REGION_ID
+        while dfxp.find('style', {'xml:id': region_id}):
+            # regions and styles can't share an id
+            region_id += '_'
         dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
+            region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
 
         body = dfxp.find('body')
 
@@ -133,11 +137,10 @@ class LegacyDFXPWriter(BaseWriter):
             for caption in caption_set.get_captions(lang):
                 if caption.style:
                     caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style.update({'region': region_id})
                 else:
                     caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                                     'region': region_id}
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
-- 
2.43.0


From 9be2b2d744aba46a347fc0a175978a9b1b9ec905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 51/55] fix: LegacyDFXPWriter does not define a region that
 nothing is in

---
 pycaption/dfxp/extras.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index a19b8de..1041666 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -146,6 +146,9 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
+        if not body.find(attrs={'region': region_id}):
+            dfxp.find('region', {'xml:id': region_id}).extract()
+
         caption_content = dfxp.prettify(formatter=None)
         return caption_content
 
-- 
2.43.0


From 8c2ce0ccc4fc4e55ce7090697f288e5fa0be974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 52/55] fix: quotes in SAMI attribute values do not end the
 value

---
 pycaption/sami.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 466a2b5..a05cdaa 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -598,14 +598,14 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class="{content["class"]}"'
+            klass += f' class="{self._encode_attribute(content["class"])}"'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
-                style = f' style="{style}"'
+                style = f' style="{self._encode_attribute(style)}"'
             line += f'<span{klass}{style}>'
             self.open_span = True
 
@@ -638,6 +638,13 @@ class SAMIWriter(BaseWriter):
         """
         return escape(s)
 
+    def _encode_attribute(self, s):
+        """
+        Encodes plain unicode string to the value of an attribute
+        :type s: str
+        """
+        return escape(s, {'"': '&quot;'})
+
 
 class SAMIParser(HTMLParser):
     def __init__(self, *args, **kw):
@@ -689,6 +696,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
+                value = escape(value or '', {'"': '&quot;'})
                 tag += f' {attr.lower()}="{value}"'
             self.sami += f"<{tag}>"
 
-- 
2.43.0


From 05702b60cbb5896f5839e2c6ef4a9f8d71d6100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 53/55] fix: SAMIWriter keeps the emphasis of all classes of a
 span

---
 pycaption/sami.py | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a05cdaa..984701d 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -456,7 +456,7 @@ class SAMIWriter(BaseWriter):
             p['p_style'] = p_style
 
         p['class'] = self._recreate_p_lang(caption, lang, captions)
-        p.string = self._recreate_text(caption.nodes)
+        p.string = self._recreate_text(caption.nodes, captions)
 
         sync.append(p)
 
@@ -569,24 +569,24 @@ class SAMIWriter(BaseWriter):
 
         return sami_style + '}\n'
 
-    def _recreate_text(self, caption):
+    def _recreate_text(self, nodes, captions):
         line = ''
 
-        for node in caption:
+        for node in nodes:
             if node.type_ == CaptionNode.TEXT:
                 line += self._encode(node.content) + ' '
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
             elif node.type_ == CaptionNode.STYLE:
-                line = self._recreate_line_style(line, node)
+                line = self._recreate_line_style(line, node, captions)
 
         return line.rstrip()
 
-    def _recreate_line_style(self, line, node):
+    def _recreate_line_style(self, line, node, captions):
         if node.start:
             if self.open_span:
                 line = line.rstrip() + '</span> '
-            line = self._recreate_span(line, node.content)
+            line = self._recreate_span(line, node.content, captions)
         else:
             if self.open_span:
                 line = line.rstrip() + '</span> '
@@ -594,9 +594,10 @@ class SAMIWriter(BaseWriter):
 
         return line
 
-    def _recreate_span(self, line, content):
+    def _recreate_span(self, line, content, captions):
         style = ''
         klass = ''
+        content = self._add_emphasis_of_classes(content, captions)
         if 'class' in content:
             klass += f' class="{self._encode_attribute(content["class"])}"'
 
@@ -611,6 +612,32 @@ class SAMIWriter(BaseWriter):
 
         return line
 
+    def _add_emphasis_of_classes(self, content, captions):
+        """
+        A span has one class, and a class can't refer to another one. What the
+        other classes of a style node mark is added to its own rules.
+        """
+        emphasis = {'italics', 'bold', 'underline'}
+        marked = set()
+        visited = []
+        pending = [content]
+        while pending:
+            rules = pending.pop()
+            marked.update(key for key in emphasis if rules.get(key))
+            classes = rules.get('classes', [rules.get('class')])
+            for name in classes:
+                if name not in visited:
+                    visited.append(name)
+                    pending.append(captions.get_style(name))
+
+        own_class = captions.get_style(content.get('class'))
+        missing = [key for key in sorted(marked)
+                   if key not in content and not own_class.get(key)]
+        if missing:
+            content = dict(content)
+            content.update({key: True for key in missing})
+        return content
+
     def _recreate_style(self, rules):
         """
         :param rules: A dictionary with CSS-like styling rules
-- 
2.43.0


From e8027ea30d54318f63682cc4d4dbcf4353f7aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 54/55] fix: DFXPWriter does not write an attribute of a span
 twice

---
 pycaption/dfxp/base.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 00e26cb..288e555 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -467,7 +467,8 @@ class DFXPWriter(BaseWriter):
                         self.region_creator.get_positioning_info(
                             lang, caption_set, caption, node))
                     if region_id != current_region:
-                        attributes = self._span_region(region_id, attribs)
+                        attributes = self._format_attributes(
+                            self._span_region(region_id, attribs))
                         text = f'<span{attributes}>{text}</span>'
                 line += text
 
@@ -493,19 +494,17 @@ class DFXPWriter(BaseWriter):
         # We are left with creating tags manually, which is hard to understand
         # and harder to maintain
         if node.start:
-            styles = ''
-
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += self._span_region(region_id, region_attribs)
+                attributes.update(
+                    self._span_region(region_id, region_attribs))
 
-            if styles:
+            if attributes:
+                styles = self._format_attributes(attributes)
                 if self.open_span:
                     line += '</span>'
                 line += f'<span{styles}>'
@@ -519,12 +518,16 @@ class DFXPWriter(BaseWriter):
 
     def _span_region(self, region_id, region_attribs):
         """The attributes placing a <span> in the given region"""
-        attributes = f' region="{region_id}"'
+        attributes = {'region': region_id}
         if self.write_inline_positioning:
-            for key, value in list(region_attribs.items()):
-                attributes += f' {key}="{value}"'
+            attributes.update(region_attribs)
         return attributes
 
+    @staticmethod
+    def _format_attributes(attributes):
+        return ''.join(
+            f' {name}="{value}"' for name, value in attributes.items())
+
     def _encode(self, s):
         """
         Escapes XML 1.0 illegal or discouraged characters
-- 
2.43.0


From 333269253090fae522b28b7c667cc376b022d09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:56 +0000
Subject: [PATCH 55/55] fix: WebVTTWriter takes the left padding out of the
 width without an origin too

---
 pycaption/webvtt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index f672c79..c756c2a 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -344,7 +344,7 @@ class WebVTTWriter(BaseWriter):
             cue_width = layout.extent.horizontal
 
         if layout.padding:
-            if layout.padding.start and left_offset:
+            if layout.padding.start:
                 # Since there is no padding in WebVTT, the left padding is
                 # added to the total left offset (if it is defined and not
                 # relative),
-- 
2.43.0

