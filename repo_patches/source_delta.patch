From 2ec29f726aefd5de8679a9956fbc139a3be5297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 01/78] fix: do not drop the token that ends at the end of the
 input

A name, number or keyword with nothing behind it was never emitted, so a
content stream ending in 'ET' or an object stream ending in a number lost
its last token.
---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..7150e3e 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -69,9 +69,9 @@ class PSBaseParser(object):
         # fetch next chunk.
         self.bufpos = self.fp.tell()
         self.buf = self.fp.read(self.BUFSIZ)
+        self.charpos = 0
         if not self.buf:
             raise PSEOF('Unexpected EOF')
-        self.charpos = 0
         return
 
     def nextline(self):
@@ -339,7 +339,16 @@ class PSBaseParser(object):
 
     def nexttoken(self):
         while not self._tokens:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of the input also ends the token in front of it
+                i = 0
+                while i < 1 and not self._tokens:
+                    i = self._current_parse_func(b'\n', i)
+                if not self._tokens:
+                    raise
+                break
             self.charpos = self._current_parse_func(self.buf, self.charpos)
         token = self._tokens.pop(0)
         log.debug('nexttoken: %r', token)
-- 
2.43.0


From b7a02a2ff22e9d133448dc60bc7bad0ed1507828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 02/78] fix: read null inside object streams as the null object

It came out as a keyword, so a dictionary entry or array element that is
null had a different value than the same object outside an object stream.
---
 pdfmajor/parser/PDFParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..840d54d 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -169,6 +169,10 @@ class PDFStreamParser(PDFParser):
                 # stream; the obj and endobj keywords are not used.
                 raise PDFSyntaxError('Keyword endobj found in stream')
             return
+        elif token is self.KEYWORD_NULL:
+            # null object
+            self.push((pos, None))
+            return
         # others
         self.push((pos, token))
         return
-- 
2.43.0


From d7bbe19032589081d6d9373e136ed69d881469b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 03/78] fix: ignore the high-order overflow of octal string
 escapes

\777 raised struct.error out of the tokenizer instead of yielding a byte.
---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 7150e3e..1c9f63b 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -299,7 +299,7 @@ class PSBaseParser(object):
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
         if c in ESC_STRING:
-- 
2.43.0


From 615b14e78130cfcff6657e3d2e2e86b28e339b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 04/78] fix: do not take a short read for the end of the data

read(n) of an unbuffered file may return fewer bytes than asked for; stream
data and the lines read back from the end of the file were then cut short.
---
 pdfmajor/parser/PDFParser.py                  |  2 +-
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 840d54d..19ffb63 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -99,7 +99,7 @@ class PDFParser(PSStackParser):
                 return
             pos += len(line)
             self.fp.seek(pos)
-            data = bytearray(self.fp.read(objlen))
+            data = bytearray(self.read_fully(objlen))
             self.seek(pos+objlen)
             while 1:
                 try:
diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 1c9f63b..3e5f63c 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -74,6 +74,18 @@ class PSBaseParser(object):
             raise PSEOF('Unexpected EOF')
         return
 
+    def read_fully(self, n: int) -> bytes:
+        """Reads n bytes, however few of them each read() returns;
+        fewer only at the end of the input.
+        """
+        data = b''
+        while len(data) < n:
+            s = self.fp.read(n-len(data))
+            if not s:
+                break
+            data += s
+        return data
+
     def nextline(self):
         """Fetches a next line that ends either with \\r or \\n.
         """
@@ -115,7 +127,7 @@ class PSBaseParser(object):
             prevpos = pos
             pos = max(0, pos-self.BUFSIZ)
             self.fp.seek(pos)
-            s = self.fp.read(prevpos-pos)
+            s = self.read_fully(prevpos-pos)
             if not s:
                 break
             while 1:
-- 
2.43.0


From e401aadeb5cd7ef254fc8048c4b2930267694fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 05/78] fix: let a hex string end behind its closing bracket

The bracket was left to pair up with the first one of a following '>>',
which was then reported one byte too early.
---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 3e5f63c..bb3fb88 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -347,6 +347,9 @@ class PSBaseParser(object):
         token = HEX_PAIR.sub(lambda m: int2byte(int(m.group(0), 16)),SPC.sub(b'', self._curtoken))
         self._add_token(token)
         self._current_parse_func = self._parse_main
+        if s[j:j+1] == b'>':
+            # part of the string: must not pair up with a following '>'
+            j += 1
         return j
 
     def nexttoken(self):
-- 
2.43.0


From 5e662b78ca782ea8204cc5bfe6834dcacbe5e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 06/78] fix: keep the input readable for as long as its pages
 are used

Pages resolve references lazily, so closing the file when the last page was
yielded made pages of a listed or preloaded document fail later.
---
 pdfmajor/interpreter/__init__.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..0288af8 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -44,20 +45,22 @@ class PDFInterpreter:
         set_log_level(self.debug_level)
         log.info("Opening file...")
         with open(self.input_file_path, 'rb') as input_file:
-            font_cache = {}
-            log.info("Parsing file...")
-            pages = PDFPage.get_pages(
-                input_file, 
-                pagenos=self.pagenos, 
-                maxpages=self.maxpages, 
-                password=self.password, 
-                caching=self.caching, 
-                check_extractable=self.check_extractable
-            )
-            for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
-            log.info(f"Done Reading {len(self.__pages)} pages.")
+            # pages load their objects lazily, also after this generator is gone
+            input_data = BytesIO(input_file.read())
+        font_cache = {}
+        log.info("Parsing file...")
+        pages = PDFPage.get_pages(
+            input_data, 
+            pagenos=self.pagenos, 
+            maxpages=self.maxpages, 
+            password=self.password, 
+            caching=self.caching, 
+            check_extractable=self.check_extractable
+        )
+        for page_num, page in enumerate(pages):
+            self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+            yield self.__pages[-1]
+        log.info(f"Done Reading {len(self.__pages)} pages.")
         set_log_level(logging.WARNING)
         
         if len(self.__pages) == 0:
-- 
2.43.0


From 43cd777dbed57f739f3ccf730ecfe4291413e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 07/78] fix: only serve later iterations from a complete list
 of pages

An iteration that was abandoned, overlapped with another one or failed left
its partial list behind, and every later iteration returned that.
---
 pdfmajor/interpreter/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index 0288af8..282a767 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -48,6 +48,7 @@ class PDFInterpreter:
             # pages load their objects lazily, also after this generator is gone
             input_data = BytesIO(input_file.read())
         font_cache = {}
+        loaded_pages = []
         log.info("Parsing file...")
         pages = PDFPage.get_pages(
             input_data, 
@@ -58,13 +59,15 @@ class PDFInterpreter:
             check_extractable=self.check_extractable
         )
         for page_num, page in enumerate(pages):
-            self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-            yield self.__pages[-1]
-        log.info(f"Done Reading {len(self.__pages)} pages.")
+            loaded_pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+            yield loaded_pages[-1]
+        log.info(f"Done Reading {len(loaded_pages)} pages.")
         set_log_level(logging.WARNING)
         
-        if len(self.__pages) == 0:
+        if len(loaded_pages) == 0:
             raise EmptyDocumentError("No pages found in pdf-file")
+        # only a complete list of pages may serve later iterations
+        self.__pages = loaded_pages
     
     def __iter__(self):
         if len(self.__pages) > 0:
-- 
2.43.0


From f23453c197a90eea232c22f3ed4f8624d324fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 08/78] fix: start every iteration of a page from the initial
 state

The state was shared between iterations: what an earlier one left behind
(open text block, matrices, colours, operands) changed or broke the next.
---
 pdfmajor/interpreter/PageInterpreter.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..3c920fb 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -24,21 +24,28 @@ class PageInterpreter:
         self.height = y1-y0
         self.width = x1-x0
 
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+
         # Init State
-        self.state: PDFStateStack = prep_state(
+        self.state: PDFStateStack = self.__make_state()
+
+    def __make_state(self) -> PDFStateStack:
+        return prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
-
     
     def __iter__(self):
+        # every iteration starts from the initial state
+        self.state = state = self.__make_state()
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-            state=self.state
+            state=state
         ):
             yield item
 
-- 
2.43.0


From 0b4651c75df34ae35ffb581f97b10f60da5fc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 09/78] fix: let the end of a content stream separate tokens

The last token of one stream was joined with the first of the next, and an
inline image ending with its stream was lost.
---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..3ff3c76 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -28,7 +28,8 @@ class PDFContentParser(PSStackParser):
                 self.istream += 1
             else:
                 raise PSEOF('Unexpected EOF, file truncated?')
-            self.fp = BytesIO(strm.get_data())
+            # the end of a stream separates tokens like white space does
+            self.fp = BytesIO(strm.get_data()+b'\n')
         return
 
     def seek(self, pos):
-- 
2.43.0


From fdfe2a151bcc0cdb23ae630fee05160a9fee8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 10/78] fix: strip only one line end from inline image data

$ also matches in front of a final line feed, so data ending with a line end
of its own lost that too.
---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 3ff3c76..986592c 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -77,7 +77,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From 2d307b68336ecb21de7aa45e8b44a6f53764ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 11/78] fix: yield a curve for four-sided paths that are not
 rectangles

make_curve returned nothing for them, so the page yielded None.
---
 .../commands/state/layout/__init__.py         | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..41b47f8 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,32 +82,32 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
-    else:
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
-        for path in paths:
-            if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-                x0 = min(x0, path.points[0].x)
-                y0 = min(y0, path.points[0].y)
-                x1 = max(x1, path.points[0].x)
-                y1 = max(y1, path.points[0].y)
-            elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
-                x0 = min(x0, path.points[2].x)
-                y0 = min(y0, path.points[2].y)
-                x1 = max(x1, path.points[2].x)
-                y1 = max(y1, path.points[2].y)
-            elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
-                x0 = min(x0, path.points[1].x)
-                y0 = min(y0, path.points[1].y)
-                x1 = max(x1, path.points[1].x)
-                y1 = max(y1, path.points[1].y)
-        return LTCurve(
-            linewidth=gstate.linewidth, 
-            paths=paths,
-            bbox=Bbox(x0,y0,x1,y1), 
-            evenodd=evenodd,
-            stroke=gstate.scolor, 
-            fill=gstate.ncolor
-        )
+    # any other shape
+    (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
+    for path in paths:
+        if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
+            x0 = min(x0, path.points[0].x)
+            y0 = min(y0, path.points[0].y)
+            x1 = max(x1, path.points[0].x)
+            y1 = max(y1, path.points[0].y)
+        elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
+            x0 = min(x0, path.points[2].x)
+            y0 = min(y0, path.points[2].y)
+            x1 = max(x1, path.points[2].x)
+            y1 = max(y1, path.points[2].y)
+        elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
+            x0 = min(x0, path.points[1].x)
+            y0 = min(y0, path.points[1].y)
+            x1 = max(x1, path.points[1].x)
+            y1 = max(y1, path.points[1].y)
+    return LTCurve(
+        linewidth=gstate.linewidth, 
+        paths=paths,
+        bbox=Bbox(x0,y0,x1,y1), 
+        evenodd=evenodd,
+        stroke=gstate.scolor, 
+        fill=gstate.ncolor
+    )
 
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
-- 
2.43.0


From 358c7ce5070fdcb3fadb10e222743e3e7fd3e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 12/78] fix: read a page without content as an empty page

Iterating it raised PSEOF.
---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 986592c..61b953c 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -16,7 +16,8 @@ from .PDFStream import PDFStream
 class PDFContentParser(PSStackParser):
 
     def __init__(self, streams: List[PDFStream]):
-        self.streams = streams
+        # a page without content has no streams at all
+        self.streams = streams or [PDFStream({}, b'')]
         self.istream = 0
         PSStackParser.__init__(self, None)
         return
-- 
2.43.0


From 37a007b49ea72d2dc1fee8bfe869b7b4f10d057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 13/78] fix: take stream data by its length where that is known

---
 pdfmajor/parser/PDFParser.py                  | 15 +++++++++++----
 pdfmajor/parser/PSStackParser/PSBaseParser.py |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 19ffb63..eb3527d 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -84,9 +84,10 @@ class PDFParser(PSStackParser):
             ((_, dic),) = self.pop(1) # pylint: disable=E0632
             dic = dict_value(dic)
             objlen = 0
-            if not self.fallback:
+            # before the document is set up a reference cannot be resolved
+            if not self.fallback or self.doc.catalog is not None or isinstance(dic.get('Length'), int):
                 try:
-                    objlen = int_value(dic['Length'])
+                    objlen = max(0, int_value(dic['Length']))
                 except KeyError:
                     if settings.STRICT:
                         raise PDFSyntaxError('/Length is undefined: %r' % dic)
@@ -100,6 +101,12 @@ class PDFParser(PSStackParser):
             pos += len(line)
             self.fp.seek(pos)
             data = bytearray(self.read_fully(objlen))
+            objlen = len(data)
+            # with fallback, /Length counts only if endstream follows the data
+            scan = self.fallback and not self.read_fully(20).lstrip().startswith(b'endstream')
+            if scan:
+                objlen = 0
+                data = bytearray()
             self.seek(pos+objlen)
             while 1:
                 try:
@@ -111,11 +118,11 @@ class PDFParser(PSStackParser):
                 if b'endstream' in line:
                     i = line.index(b'endstream')
                     objlen += i
-                    if self.fallback:
+                    if scan:
                         data += line[:i]
                     break
                 objlen += len(line)
-                if self.fallback:
+                if scan:
                     data += line
             data = bytes(data)
             self.seek(pos+objlen)
diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index bb3fb88..32fed51 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -80,7 +80,7 @@ class PSBaseParser(object):
         """
         data = b''
         while len(data) < n:
-            s = self.fp.read(n-len(data))
+            s = self.fp.read(min(n-len(data), 1 << 20))
             if not s:
                 break
             data += s
-- 
2.43.0


From 40e470ed3be1e70e17726554d57bd99eeeab4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 14/78] fix: raise the errors that are meant instead of
 NameError

---
 pdfmajor/execptions.py                            | 9 +++++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 3 ++-
 pdfmajor/parser/PDFDocument/PDFXRef.py            | 2 +-
 pdfmajor/parser/PDFDocument/__init__.py           | 1 +
 pdfmajor/parser/PDFStream/__init__.py             | 3 ++-
 pdfmajor/parser/PDFStream/util.py                 | 1 +
 6 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..7a9de88 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -63,6 +63,15 @@ class PDFTypeError(PDFException):
 class PDFSyntaxError(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..df8d5bc 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,7 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
@@ -42,7 +43,7 @@ class PDFStandardSecurityHandler(object):
     def init_key(self):
         self.key = self.authenticate(self.password)
         if self.key is None:
-            raise PDFPasswordIncorrect
+            raise PDFPasswordIncorrect('Incorrect password')
         return
 
     def is_printable(self):
diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..4b2b3d1 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..e41e29d 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -12,6 +12,7 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
+    PDFEncryptionError,
     PDFSyntaxError
 )
 
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..8ab239e 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,6 +1,7 @@
 import zlib
 
-from ...utils import lzwdecode
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
+from ...utils import lzwdecode, settings
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
 from .constants import * 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..f6f2f33 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,4 @@
+from pdfmajor.execptions import PDFTypeError
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From 8ac809f8940d507295a262f862c1dc1d75e7cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 15/78] fix: report positions outside of the input as its end

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 32fed51..a53eeea 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -1,4 +1,5 @@
 import logging
+import sys
 
 log = logging.getLogger(__name__)
 
@@ -51,6 +52,8 @@ class PSBaseParser(object):
         """Seeks the parser to the given position.
         """
         log.debug('seek: %r', pos)
+        if not 0 <= pos <= sys.maxsize:
+            raise PSEOF('Position outside of the input: %r' % pos)
         self.fp.seek(pos)
         # reset the status for nextline()
         self.bufpos: int = pos
-- 
2.43.0


From 61406518f4a2b4ab0de88331064a0d255a6d2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 16/78] fix: go back to the last complete cross-reference
 section

---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 21 ++++---
 pdfmajor/parser/PDFDocument/__init__.py | 84 ++++++++++++++++---------
 2 files changed, 69 insertions(+), 36 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4b2b3d1..eb7a436 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -8,7 +8,7 @@ from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
 from ..PDFParser import PDFStreamParser
 from ..PDFStream import PDFStream
-from ..PDFStream import dict_value
+from ..PDFStream import dict_value, int_value, list_value
 
 from .constants import LITERAL_OBJSTM, LITERAL_XREF
 
@@ -76,7 +76,10 @@ class PDFXRef(PDFBaseXRef):
                 (pos, genno, use) = f
                 if use != b'n':
                     continue
-                self.offsets[objid] = (None, int(pos), int(genno))
+                try:
+                    self.offsets[objid] = (None, int(pos), int(genno))
+                except ValueError:
+                    raise PDFNoValidXRef('Invalid XRef entry: %r, line=%r' % (parser, line))
         log.info('xref objects: %r', self.offsets)
         self.load_trailer(parser)
         return
@@ -84,7 +87,8 @@ class PDFXRef(PDFBaseXRef):
     def load_trailer(self, parser):
         try:
             (_, kwd) = parser.nexttoken()
-            assert kwd is KWD(b'trailer'), str(kwd)
+            if kwd is not KWD(b'trailer'):
+                raise PDFNoValidXRef('Trailer not found: %r' % kwd)
             (_, dic) = parser.nextobject()
         except PSEOF:
             x = parser.pop(1)
@@ -181,14 +185,17 @@ class PDFXRefStream(PDFBaseXRef):
         (_, genno) = parser.nexttoken()  # ignored
         (_, kwd) = parser.nexttoken()
         (_, stream) = parser.nextobject()
-        if not isinstance(stream, PDFStream) or stream['Type'] is not LITERAL_XREF:
+        if not isinstance(stream, PDFStream) or stream.get('Type') is not LITERAL_XREF:
             raise PDFNoValidXRef('Invalid PDF stream spec.')
-        size = stream['Size']
-        index_array = stream.get('Index', (0, size))
+        size = int_value(stream.get('Size'))
+        index_array = [int_value(x) for x in list_value(stream.get('Index', (0, size)))]
         if len(index_array) % 2 != 0:
             raise PDFSyntaxError('Invalid index number')
         self.ranges.extend(choplist(2, index_array))
-        (self.fl1, self.fl2, self.fl3) = stream['W']
+        widths = [int_value(x) for x in list_value(stream.get('W'))]
+        if len(widths) != 3 or min(widths) < 0:
+            raise PDFNoValidXRef('Invalid field widths: %r' % widths)
+        (self.fl1, self.fl2, self.fl3) = widths
         self.data = stream.get_data()
         self.entlen = self.fl1+self.fl2+self.fl3
         self.trailer = stream.attrs
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e41e29d..7fdb8c9 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -10,6 +10,8 @@ from pdfmajor.execptions import (
     PDFDestinationNotFound, 
     PDFNoValidXRef,
     PSEOF,
+    PSException,
+    PDFException,
     PDFObjectNotFound, 
     PDFTypeError,
     PDFEncryptionError,
@@ -72,11 +74,13 @@ class PDFDocument(object):
         self.is_printable = self.is_modifiable = self.is_extractable = True
         # Retrieve the information of each header that was appended
         # (maybe multiple times) at the end of the document.
-        try:
-            pos = self.find_xref(parser)
-            self.read_xref_from(parser, pos, self.xrefs)
-        except PDFNoValidXRef:
-            pass # fallback = True
+        for pos in self.find_xrefs(parser):
+            try:
+                self.read_xref_from(parser, pos, self.xrefs)
+            except PDFNoValidXRef:
+                pass # fallback = True
+            if self.xrefs:
+                break
         if fallback:
             parser.fallback = True
             xref = PDFXRefFallback()
@@ -282,32 +286,64 @@ class PDFDocument(object):
             obj = d0[name]
         return obj
 
-    # find_xref
-    def find_xref(self, parser):
-        """Internal function used to locate the first XRef."""
+    # a file with more broken startxref than this is left to the fallback
+    MAX_STARTXREF = 100
+
+    # find_xrefs
+    def find_xrefs(self, parser):
+        """Internal function used to locate the first XRef.
+
+        Yields the positions named by startxref, the last one first: the
+        end of a file that was not written completely names no valid one.
+        """
         # search the last xref table by scanning the file backwards.
         prev = None
+        found = set()
         for line in parser.revreadlines():
             line = line.strip()
             log.debug('find_xref: %r', line)
             if line == b'startxref':
-                break
+                log.info('xref found: pos=%r', prev)
+                if prev is not None and prev.isdigit() and int(prev) not in found:
+                    found.add(int(prev))
+                    yield int(prev)
+                    if self.MAX_STARTXREF <= len(found):
+                        break
             if line:
                 prev = line
-        else:
-            raise PDFNoValidXRef('Unexpected EOF')
-        log.info('xref found: pos=%r', prev)
-        return int(prev)
+        return
 
     # read xref table
     def read_xref_from(self, parser, start, xrefs):
-        """Reads XRefs from the given location."""
+        """Reads XRefs from the given location and all those they refer to."""
+        todo = [start]
+        done = set()
+        while todo:
+            start = todo.pop()
+            if start in done:
+                continue
+            done.add(start)
+            try:
+                xref = self._read_xref(parser, start)
+            except PDFNoValidXRef:
+                raise
+            except (PSException, PDFException, ValueError, TypeError, LookupError) as e:
+                raise PDFNoValidXRef('Invalid xref: pos=%r: %r' % (start, e))
+            xrefs.append(xref)
+            trailer = xref.get_trailer()
+            log.info('trailer: %r', trailer)
+            if 'Prev' in trailer:
+                # find previous xref
+                todo.append(int_value(trailer['Prev']))
+            if 'XRefStm' in trailer:
+                # comes before the previous xref
+                todo.append(int_value(trailer['XRefStm']))
+        return
+
+    def _read_xref(self, parser, start):
         parser.seek(start)
         parser.reset()
-        try:
-            (pos, token) = parser.nexttoken()
-        except PSEOF:
-            raise PDFNoValidXRef('Unexpected EOF')
+        (pos, token) = parser.nexttoken()
         log.info('read_xref_from: start=%d, token=%r', start, token)
         if isinstance(token, int):
             # XRefStream: PDF-1.5
@@ -320,14 +356,4 @@ class PDFDocument(object):
                 parser.nextline()
             xref = PDFXRef()
             xref.load(parser)
-        xrefs.append(xref)
-        trailer = xref.get_trailer()
-        log.info('trailer: %r', trailer)
-        if 'XRefStm' in trailer:
-            pos = int_value(trailer['XRefStm'])
-            self.read_xref_from(parser, pos, xrefs)
-        if 'Prev' in trailer:
-            # find previous xref
-            pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs)
-        return
+        return xref
-- 
2.43.0


From e6dd6c8f5d2778808607b2dd23574f177cd01097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 17/78] fix: find the object number in front of obj at inexact
 positions

---
 pdfmajor/parser/PDFDocument/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 7fdb8c9..6f7580a 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -174,13 +174,11 @@ class PDFDocument(object):
         #to solve https://github.com/pdfminer/pdfminer.six/issues/56
         #assert objid1 == objid, str((objid1, objid))
         if objid1 != objid:
-            x = []
+            x = [objid1, genno, kwd]
             while kwd is not self.KEYWORD_OBJ:
                 (_,kwd) = self._parser.nexttoken()
                 x.append(kwd)
-            if x:
-                objid1 = x[-2]
-                genno = x[-1]
+            (objid1, genno) = x[-3:-1]
         # #### end hack around malformed pdf files
         if objid1 != objid:
             raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))
@@ -304,7 +302,7 @@ class PDFDocument(object):
             log.debug('find_xref: %r', line)
             if line == b'startxref':
                 log.info('xref found: pos=%r', prev)
-                if prev is not None and prev.isdigit() and int(prev) not in found:
+                if prev is not None and prev.isdigit() and len(prev) < 20 and int(prev) not in found:
                     found.add(int(prev))
                     yield int(prev)
                     if self.MAX_STARTXREF <= len(found):
-- 
2.43.0


From be4226d228a081395e2da2067b6afb13abf67245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 18/78] fix: recover the other objects when one of them is
 damaged

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 66 +++++++++++++++++---------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index eb7a436..88b04f0 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
+from pdfmajor.execptions import PSEOF, PSException, PDFException, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
@@ -123,6 +123,7 @@ class PDFXRefFallback(PDFXRef):
 
     def load(self, parser):
         parser.seek(0)
+        expand = True
         while 1:
             try:
                 (pos, line) = parser.nextline()
@@ -130,7 +131,10 @@ class PDFXRefFallback(PDFXRef):
                 break
             if line.startswith(b'trailer'):
                 parser.seek(pos)
-                self.load_trailer(parser)
+                try:
+                    self.load_trailer(parser)
+                except (PSException, PDFException, PDFNoValidXRef) as e:
+                    log.info('Invalid trailer: %r', e)
                 log.info('trailer: %r', self.trailer)
                 break
             line=line.decode('latin-1') #default pdf encoding
@@ -141,29 +145,45 @@ class PDFXRefFallback(PDFXRef):
             objid = int(objid)
             genno = int(genno)
             self.offsets[objid] = (None, pos, genno)
+            if not expand:
+                continue
             # expand ObjStm.
+            next_pos = parser.tell()
             parser.seek(pos)
-            (_, obj) = parser.nextobject()
-            if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
-                stream = PDFStream.validated_stream(obj)
-                try:
-                    n = stream['N']
-                except KeyError:
-                    if settings.STRICT:
-                        raise PDFSyntaxError('N is not defined: %r' % stream)
-                    n = 0
-                parser1 = PDFStreamParser(stream.get_data())
-                objs = []
-                try:
-                    while 1:
-                        (_, obj) = parser1.nextobject()
-                        objs.append(obj)
-                except PSEOF:
-                    pass
-                n = min(n, len(objs)//2)
-                for index in range(n):
-                    objid1 = objs[index*2]
-                    self.offsets[objid1] = (objid, index, 0)
+            try:
+                (_, obj) = parser.nextobject()
+                if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
+                    self.load_objstm(objid, PDFStream.validated_stream(obj))
+            except PSEOF:
+                # the file ends inside of this object, do not search it again and again
+                expand = False
+                parser.seek(next_pos)
+            except (PSException, PDFException, ValueError, TypeError, LookupError) as e:
+                # damaged, but there may be more objects behind
+                log.debug('Invalid object: %r: %r', objid, e)
+                parser.seek(next_pos)
+        return
+
+    def load_objstm(self, objid, stream):
+        try:
+            n = int_value(stream['N'])
+        except KeyError:
+            if settings.STRICT:
+                raise PDFSyntaxError('N is not defined: %r' % stream)
+            n = 0
+        parser1 = PDFStreamParser(stream.get_data())
+        objs = []
+        try:
+            while 1:
+                (_, obj) = parser1.nextobject()
+                objs.append(obj)
+        except PSEOF:
+            pass
+        n = min(n, len(objs)//2)
+        for index in range(n):
+            objid1 = objs[index*2]
+            if isinstance(objid1, int):
+                self.offsets[objid1] = (objid, index, 0)
         return
 
 ##  PDFXRefStream
-- 
2.43.0


From d15e0337d2df0135b66a623d1b7121b691c3f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 19/78] fix: do not follow circles of references for ever

---
 pdfmajor/parser/PDFDocument/__init__.py | 55 +++++++++++++++----------
 pdfmajor/parser/PDFStream/util.py       | 10 +++--
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 6f7580a..5248f8d 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -69,6 +69,7 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._resolving = []
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -188,6 +189,9 @@ class PDFDocument(object):
         (_, obj) = self._parser.nextobject()
         return obj
 
+    # objects that need another one to be read (for their length) are not nested deeper
+    MAX_RESOLVING = 50
+
     # can raise PDFObjectNotFound
     def getobj(self, objid):
         assert objid != 0
@@ -196,33 +200,42 @@ class PDFDocument(object):
         log.debug('getobj: objid=%r', objid)
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
+        elif objid in self._resolving or self.MAX_RESOLVING <= len(self._resolving):
+            # needed to read itself
+            raise PDFObjectNotFound(objid)
         else:
-            for xref in self.xrefs:
-                try:
-                    (strmid, index, genno) = xref.get_pos(objid)
-                except KeyError:
-                    continue
-                try:
-                    if strmid is not None:
-                        stream = PDFStream.validated_stream(self.getobj(strmid))
-                        obj = self._getobj_objstm(stream, index, objid)
-                    else:
-                        obj = self._getobj_parse(index, objid)
-                        if self.decipher:
-                            obj = decipher_all(self.decipher, objid, genno, obj)
-
-                    if isinstance(obj, PDFStream):
-                        obj.set_objid(objid, genno)
-                    break
-                except (PSEOF, PDFSyntaxError):
-                    continue
-            else:
-                raise PDFObjectNotFound(objid)
+            self._resolving.append(objid)
+            try:
+                (obj, genno) = self._getobj(objid)
+            finally:
+                self._resolving.pop()
             log.debug('register: objid=%r: %r', objid, obj)
             if self.caching:
                 self._cached_objs[objid] = (obj, genno)
         return obj
 
+    def _getobj(self, objid):
+        for xref in self.xrefs:
+            try:
+                (strmid, index, genno) = xref.get_pos(objid)
+            except KeyError:
+                continue
+            try:
+                if strmid is not None:
+                    stream = PDFStream.validated_stream(self.getobj(strmid))
+                    obj = self._getobj_objstm(stream, index, objid)
+                else:
+                    obj = self._getobj_parse(index, objid)
+                    if self.decipher:
+                        obj = decipher_all(self.decipher, objid, genno, obj)
+
+                if isinstance(obj, PDFStream):
+                    obj.set_objid(objid, genno)
+                return (obj, genno)
+            except (PSException, PDFException, PDFObjectNotFound):
+                continue
+        raise PDFObjectNotFound(objid)
+
     def get_outlines(self):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index f6f2f33..e73bd59 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -13,7 +13,12 @@ def resolve1(x, default=None):
     If this is an array or dictionary, it may still contains
     some indirect objects inside.
     """
+    seen = set()
     while isinstance(x, PDFObjRef):
+        if x.objid in seen:
+            # a circle of references leads nowhere
+            return default
+        seen.add(x.objid)
         x = x.resolve(default=default)
     return x
 
@@ -24,12 +29,11 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    while isinstance(x, PDFObjRef):
-        x = x.resolve(default=default)
+    x = resolve1(x, default=default)
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-        for (k, v) in x.iteritems():
+        for (k, v) in x.items():
             x[k] = resolve_all(v, default=default)
     return x
 
-- 
2.43.0


From 6c00d330e8e25608912ab6382c7e56b5bfd7b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 20/78] fix: visit every node of the page tree once

---
 pdfmajor/parser/PDFPage.py | 52 +++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..f81f83c 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -77,29 +77,35 @@ class PDFPage(object):
     @classmethod
     def create_pages(cls, document: PDFDocument):
         def search(obj, parent):
-            if isinstance(obj, int):
-                objid = obj
-                tree = dict_value(document.getobj(objid)).copy()
-            else:
-                objid = obj.objid
-                tree = dict_value(obj).copy()
-            for (k, v) in parent.items():
-                if k in cls.INHERITABLE_ATTRS and k not in tree:
-                    tree[k] = v
-
-            tree_type = tree.get('Type')
-            if tree_type is None and not settings.STRICT:  # See #64
-                tree_type = tree.get('type')
-
-            if tree_type is LITERAL_PAGES and 'Kids' in tree:
-                log.debug('Pages: Kids=%r', tree['Kids'])
-                for c in list_value(tree['Kids']):
-                    for x in search(c, tree):
-                        yield x
-            elif tree_type is LITERAL_PAGE:
-                log.debug('Page: %r', tree)
-                yield (objid, tree)
-        
+            todo = [(obj, parent)]
+            visited = set()
+            while todo:
+                (obj, parent) = todo.pop()
+                if isinstance(obj, int):
+                    objid = obj
+                    tree = dict_value(document.getobj(objid)).copy()
+                else:
+                    objid = obj.objid
+                    tree = dict_value(obj).copy()
+                for (k, v) in parent.items():
+                    if k in cls.INHERITABLE_ATTRS and k not in tree:
+                        tree[k] = v
+
+                tree_type = tree.get('Type')
+                if tree_type is None and not settings.STRICT:  # See #64
+                    tree_type = tree.get('type')
+
+                if tree_type is LITERAL_PAGES and 'Kids' in tree:
+                    if objid in visited:
+                        # part of itself
+                        continue
+                    visited.add(objid)
+                    log.debug('Pages: Kids=%r', tree['Kids'])
+                    todo.extend((c, tree) for c in reversed(list_value(tree['Kids'])))
+                elif tree_type is LITERAL_PAGE:
+                    log.debug('Page: %r', tree)
+                    yield (objid, tree)
+
         pages = False
         if 'Pages' in document.catalog:
             for (objid, tree) in search(document.catalog['Pages'], document.catalog):
-- 
2.43.0


From f955f4802a8d5dc8060d56b76fe92c3e730caa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 21/78] fix: find entries of outlines and name trees of any
 size and shape

---
 pdfmajor/parser/PDFDocument/__init__.py | 66 +++++++++++++++----------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 5248f8d..558f26c 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -22,6 +22,7 @@ from ...utils import settings, choplist, decode_text
 from ..PSStackParser import KWD
 from ..PSStackParser import literal_name
 from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all
+from ..PDFStream.PDFObjRef import PDFObjRef
 from ..PDFParser import PDFStreamParser, PDFStream
 
 from .PDFSecurityHandler import PDFStandardSecurityHandler
@@ -241,20 +242,27 @@ class PDFDocument(object):
             raise PDFNoOutlines
 
         def search(entry, level):
-            entry = dict_value(entry)
-            if 'Title' in entry:
-                if 'A' in entry or 'Dest' in entry:
-                    title = decode_text(str_value(entry['Title']))
-                    dest = entry.get('Dest')
-                    action = entry.get('A')
-                    se = entry.get('SE')
-                    yield (level, title, dest, action, se)
-            if 'First' in entry and 'Last' in entry:
-                for x in search(entry['First'], level+1):
-                    yield x
-            if 'Next' in entry:
-                for x in search(entry['Next'], level):
-                    yield x
+            todo = [(entry, level)]
+            visited = set()
+            while todo:
+                (entry, level) = todo.pop()
+                if isinstance(entry, PDFObjRef):
+                    if entry.objid in visited:
+                        # part of itself
+                        continue
+                    visited.add(entry.objid)
+                entry = dict_value(entry)
+                if 'Title' in entry:
+                    if 'A' in entry or 'Dest' in entry:
+                        title = decode_text(str_value(entry['Title']))
+                        dest = entry.get('Dest')
+                        action = entry.get('A')
+                        se = entry.get('SE')
+                        yield (level, title, dest, action, se)
+                if 'Next' in entry:
+                    todo.append((entry['Next'], level))
+                if 'First' in entry and 'Last' in entry:
+                    todo.append((entry['First'], level+1))
             return
         return search(self.catalog['Outlines'], 0)
 
@@ -266,22 +274,28 @@ class PDFDocument(object):
         # may raise KeyError
         d0 = dict_value(names[cat])
 
-        def lookup(d):
+        todo = [d0]
+        visited = set()
+        while todo:
+            d = todo.pop()
+            if isinstance(d, PDFObjRef):
+                if d.objid in visited:
+                    # part of itself
+                    continue
+                visited.add(d.objid)
+            d = dict_value(d)
             if 'Limits' in d:
-                (k1, k2) = list_value(d['Limits'])
+                (k1, k2) = map(str_value, list_value(d['Limits']))
                 if key < k1 or k2 < key:
-                    return None
+                    continue
             if 'Names' in d:
                 objs = list_value(d['Names'])
-                names = dict(choplist(2, objs))
-                return names[key]
-            if 'Kids' in d:
-                for c in list_value(d['Kids']):
-                    v = lookup(dict_value(c))
-                    if v:
-                        return v
-            raise KeyError((cat, key))
-        return lookup(d0)
+                names = dict((str_value(k), v) for (k, v) in choplist(2, objs))
+                if key in names:
+                    return names[key]
+            elif 'Kids' in d:
+                todo.extend(reversed(list_value(d['Kids'])))
+        raise KeyError((cat, key))
 
     def get_dest(self, name):
         try:
-- 
2.43.0


From b0d684d5d636ca6d181dc525b959ce2a9dea61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 22/78] fix: unpack integers of any length

---
 pdfmajor/utils/generic.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..118af8c 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -126,22 +126,10 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
-    l = len(s)
-    if not l:
+    """Unpacks integers of any length (big endian)."""
+    if not s:
         return default
-    elif l == 1:
-        return ord(s)
-    elif l == 2:
-        return struct.unpack('>H', s)[0]
-    elif l == 3:
-        return struct.unpack('>L', b'\x00'+s)[0]
-    elif l == 4:
-        return struct.unpack('>L', s)[0]
-    elif l == 8:
-        return struct.unpack('>Q', s)[0]
-    else:
-        raise TypeError('invalid length: %d' % l)
+    return int.from_bytes(s, 'big')
 
 ##  Plane
 ##
-- 
2.43.0


From 0bf9535ed88e5610e2d9361030ac928eeb5ef995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 23/78] fix: resolve references to filters and their parameters

---
 pdfmajor/parser/PDFStream/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 8ab239e..6308ae7 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -59,8 +59,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -71,11 +71,8 @@ class PDFStream(PDFObject):
         if settings.STRICT and len(params) != len(filters):
             raise PDFException("Parameters len filter mismatch")
         # resolve filter if possible
-        _filters = []
-        for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
-            _filters.append(fltr)
+        _filters = [resolve1(fltr) for fltr in filters]
+        params = [resolve1(param) for param in params]
         return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
-- 
2.43.0


From 5e6085960366d9512e9edf80c3e498abcd8d1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 24/78] fix: list every page once when there is no page tree

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 6 +++++-
 pdfmajor/parser/PDFPage.py             | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 88b04f0..0e979ab 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -228,13 +228,17 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * (index+i)
                 ent = self.data[offset:offset+self.entlen]
+                if not ent:
+                    return
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
+            index += nobjs
         return
 
     def get_pos(self, objid):
diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index f81f83c..cc29ea6 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -113,8 +113,12 @@ class PDFPage(object):
                 pages = True
         if not pages:
             # fallback when /Pages is missing.
+            visited = set()
             for xref in document.xrefs:
                 for objid in xref.get_objids():
+                    if objid in visited:
+                        continue
+                    visited.add(objid)
                     try:
                         obj = document.getobj(objid)
                         if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
-- 
2.43.0


From d795f9b00caa039e817e9a4d68c599947c7e6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 25/78] fix: do not format the whole table for every LZW code

---
 pdfmajor/utils/lzw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..e8fdb6a 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -56,6 +56,9 @@ class LZWDecoder(object):
             self.nbits = 9
         elif code == 257:
             pass
+        elif self.table is None:
+            # does not start with a clear code
+            raise CorruptDataError
         elif not self.prevbuf:
             x = self.prevbuf = self.table[code]
         else:
@@ -89,8 +92,7 @@ class LZWDecoder(object):
                 # just ignore corrupt data and stop yielding there
                 break
             yield x
-            logging.debug('nbits=%d, code=%d, output=%r, table=%r' %
-                          (self.nbits, code, x, self.table[258:]))
+            logging.debug('nbits=%d, code=%d, output=%r', self.nbits, code, x)
         return
 
 
-- 
2.43.0


From b0dae7b91203818ddcaa5f4dde963898f83a0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 26/78] fix: take any object that is no cross-reference section
 for a damaged one

A startxref that points at something with an indirect stream length made
opening fail, as nothing can be looked up yet.
---
 pdfmajor/parser/PDFDocument/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 558f26c..59fba87 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -352,7 +352,7 @@ class PDFDocument(object):
                 xref = self._read_xref(parser, start)
             except PDFNoValidXRef:
                 raise
-            except (PSException, PDFException, ValueError, TypeError, LookupError) as e:
+            except (ParserError, ValueError, TypeError, LookupError) as e:
                 raise PDFNoValidXRef('Invalid xref: pos=%r: %r' % (start, e))
             xrefs.append(xref)
             trailer = xref.get_trailer()
-- 
2.43.0


From 5efc822c07b034b2210756a233d03033821aa51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 27/78] fix: accept text objects and strings that show nothing

An empty string ended in an IndexError, and an empty text object became an
item without a bounding box that no converter can write.
---
 pdfmajor/interpreter/commands/commands.py                 | 4 +++-
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..88f21e8 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -359,7 +359,9 @@ def begin_text(stack: PDFStateStack) -> PDFStateStack:
 
 @PDFCommands.add('ET')
 def end_text(stack: PDFStateStack) -> PDFStateStack:
-    stack.complete_layout_items.append(stack.current_textblock)
+    if stack.current_textblock:
+        # only those that show something have a place on the page
+        stack.complete_layout_items.append(stack.current_textblock)
     stack.current_textblock = None
     return stack
 
diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..a0acc78 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if not char_meta_datas:
+            # nothing is shown
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From e9c81204179a32eb7ee59d5da935bdd4db3ad2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 28/78] fix: ignore bad characters in form XObjects as well
 when asked to

---
 pdfmajor/interpreter/commands/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..9d61de0 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -56,7 +56,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
                     resources=complete_item.resources,
-                    font_cache=font_cache
+                    font_cache=font_cache,
+                    ignore_bad_chars=state.text.ignore_bad_chars
                 )
                 xobj_state.graphics = state.graphics.copy()
                 for item in process_command_stream(
-- 
2.43.0


From d564a2a1d7e47b83b59bb71fa3bc71448c57f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 29/78] fix: write any text and value as valid JSON

Only double quotes were escaped, so a backslash or a control character in a
text, a quote in a key or a missing number left a file that does not parse.
---
 pdfmajor/converters/writers/json.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..6c04456 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -4,6 +4,14 @@ from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+def json_string(val) -> str:
+    """Spells any text as a JSON string"""
+    return json_dump(str(val), ensure_ascii=False)
+
+def json_number(val) -> str:
+    """Spells a number, or what takes the place of one"""
+    return val if isinstance(val, str) else json_dump(val)
+
 @contextmanager
 def JSONMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -42,16 +50,15 @@ class JSONMakerObject:
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{json_string(key)}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{json_string(key)}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
-        self.write_prop(key, val)
+        self.write_prop(key, json_number(val))
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, json_string(val))
     
     @contextmanager
     def object(self, key: str):
@@ -106,11 +113,10 @@ class JSONMakerArray:
             self.write(f'{val}', prefix='\n')
 
     def number(self, val: float or int):
-        self.write_prop(val)
+        self.write_prop(json_number(val))
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(json_string(val))
     
     @contextmanager
     def object(self):
-- 
2.43.0


From b0afb53b2805afad9b56bb3cd6444edea2acd127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 30/78] fix: write any text and structure as valid YAML

Keys and values were written without quotes whatever they contain, objects
without entries read as null, and the first entry of an object ended up on
the wrong level when it was an object or an array itself.
---
 pdfmajor/converters/writers/yaml.py | 93 ++++++++++++++++++++++++++---
 pdfmajor/converters/yaml.py         |  2 +-
 2 files changed, 85 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6bdfefc..adaa11e 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -1,8 +1,55 @@
-from json import dumps as json_dump
+import re
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+PLAIN_TEXT = re.compile(r'[A-Za-z][A-Za-z0-9_./]*([ -][A-Za-z0-9_./]+)*\Z')
+PLAIN_NUMBER = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?\Z')
+NOT_TEXT = {'y', 'n', 'yes', 'no', 'on', 'off', 'true', 'false', 'null'}
+NEEDS_ESCAPE = re.compile(u'["\\\\]|[^\x20-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]')
+
+def yaml_string(text: str) -> str:
+    """Spells any text as a quoted scalar"""
+    return '"' + NEEDS_ESCAPE.sub(yaml_escape, text) + '"'
+
+def yaml_escape(m) -> str:
+    char = m.group()
+    if char in '"\\':
+        return '\\' + char
+    return '\\x%02x' % ord(char) if ord(char) < 256 else '\\u%04x' % ord(char)
+
+def yaml_scalar(value) -> str:
+    """Spells a single value, without quotes where it reads the same"""
+    if value is None:
+        return 'null'
+    if isinstance(value, bool):
+        return 'true' if value else 'false'
+    if isinstance(value, (int, float)):
+        return str(value)
+    text = str(value)
+    if PLAIN_NUMBER.match(text) or (PLAIN_TEXT.match(text) and text.lower() not in NOT_TEXT):
+        return text
+    return yaml_string(text)
+
+def yaml_value(value) -> str:
+    """Spells any value within one line"""
+    if isinstance(value, dict):
+        return '{' + ', '.join(f'{yaml_flow_scalar(k)}: {yaml_value_in_flow(v)}' for k, v in value.items()) + '}'
+    if isinstance(value, (list, tuple)):
+        return '[' + ', '.join(yaml_value_in_flow(v) for v in value) + ']'
+    return yaml_scalar(value)
+
+def yaml_value_in_flow(value) -> str:
+    return yaml_value(value) if isinstance(value, (dict, list, tuple)) else yaml_flow_scalar(value)
+
+def yaml_flow_scalar(value) -> str:
+    if isinstance(value, str):
+        quoted = yaml_string(value)
+        if quoted == f'"{value}"' and "'" not in value:
+            return f"'{value}'"
+        return quoted
+    return yaml_scalar(value)
+
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -22,7 +69,15 @@ class YAMLMakerWriter:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        if self._is_empty():
+            self._write(self.EMPTY, append_deep=not self._on_parent_line())
         self.levels_deep -= 1
+
+    def _is_empty(self) -> bool:
+        raise NotImplementedError
+
+    def _on_parent_line(self) -> bool:
+        return False
     
     def __write_raw(self, text):
         if self.outfile is not None:
@@ -39,18 +94,33 @@ class YAMLMakerWriter:
         self.__write_raw(text)
 
 class YAMLMakerObject(YAMLMakerWriter):
+    EMPTY = '{}'
+
     def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1, parent_is_array: bool = False):
         YAMLMakerWriter.__init__(self, outfile, codec, levels_deep)
         self.keys = set()
         self.parent_is_array = parent_is_array
 
+    def _is_empty(self) -> bool:
+        return len(self.keys) == 0
+
+    def _on_parent_line(self) -> bool:
+        return self.parent_is_array
+
     def write(self, key: str, value: str):
+        self._write_pair(key, yaml_value(value))
+
+    def string(self, key: str, value: str):
+        """Writes a text that is never to be read as anything else"""
+        self._write_pair(key, yaml_string(value))
+
+    def _write_pair(self, key: str, value: str):
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self._write(f'{key}: {value}', prefix='\n')
+                self._write(f'{yaml_scalar(key)}: {value}', prefix='\n')
             else:
-                self._write(f'{key}: {value}', prefix='', 
+                self._write(f'{yaml_scalar(key)}: {value}', prefix='', 
                     append_deep=not self.parent_is_array
                 )
     
@@ -59,9 +129,9 @@ class YAMLMakerObject(YAMLMakerWriter):
         if key not in self.keys:
             self.keys.add(key)
         if len(self.keys) > 1:
-            self._write(f'{key}:\n', prefix='\n')
+            self._write(f'{yaml_scalar(key)}:\n', prefix='\n')
         else:
-            self._write(f'{key}:\n', prefix='', append_deep=False)
+            self._write(f'{yaml_scalar(key)}:\n', prefix='', append_deep=not self.parent_is_array)
         with YAMLMakerObject(self.outfile, codec=self.codec, levels_deep=self.levels_deep) as obj:
             yield obj
     
@@ -70,9 +140,9 @@ class YAMLMakerObject(YAMLMakerWriter):
         if key not in self.keys:
             self.keys.add(key)
         if len(self.keys) > 1:
-            self._write(f'{key}:\n', prefix='\n')
+            self._write(f'{yaml_scalar(key)}:\n', prefix='\n')
         else:
-            self._write(f'{key}:\n', prefix='')
+            self._write(f'{yaml_scalar(key)}:\n', prefix='', append_deep=not self.parent_is_array)
         with YAMLMakerArray(self.outfile, codec=self.codec, levels_deep=self.levels_deep) as obj:
             yield obj
     
@@ -88,16 +158,21 @@ class YAMLMakerObject(YAMLMakerWriter):
 
 
 class YAMLMakerArray(YAMLMakerWriter):
+    EMPTY = '[]'
+
     def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1):
         YAMLMakerWriter.__init__(self, outfile, codec, levels_deep)
         self.childrencount = 0 
+
+    def _is_empty(self) -> bool:
+        return self.childrencount == 0
  
     def write(self, value: str = ""):
         self.childrencount += 1
         if self.childrencount > 1:
-            self._write(f'- {value}', prefix='\n')
+            self._write(f'- {yaml_value(value)}', prefix='\n')
         else:
-            self._write(f'- {value}', prefix='')
+            self._write(f'- {yaml_value(value)}', prefix='')
     
     @contextmanager
     def object(self):
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..9499cdd 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -106,7 +106,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     for key, value in char_block.font.descriptor.items():
         if key != "Type" and "FontFile" not in key:
             yaml.write(key, value)
-    yaml.write("text", 
+    yaml.string("text", 
         "".join([
             char.get_text()
             for char in char_block
-- 
2.43.0


From f987ba57d07d9fc60008affe24e727648360c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 31/78] fix: write any text and attribute as valid XML

---
 pdfmajor/converters/writers/xml.py | 17 ++++++++++++++++-
 pdfmajor/converters/xml.py         |  5 ++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 4d71dc1..7282a45 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -1,7 +1,22 @@
+import re
 from io import TextIOWrapper
 from contextlib import contextmanager
+from xml.sax import saxutils
 from pdfmajor.execptions import FileAccessException
 
+# characters that cannot be part of an XML document in any spelling
+INVALID_CHARS = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+def xml_text(value) -> str:
+    """Spells any text as content of an element"""
+    return saxutils.escape(INVALID_CHARS.sub('\ufffd', str(value)), { '\r': '&#13;' })
+
+def xml_attr(value) -> str:
+    """Spells any text as value of an attribute"""
+    return saxutils.escape(INVALID_CHARS.sub('\ufffd', str(value)), {
+        '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'
+    })
+
 class XMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
         self.file_path = file_path
@@ -41,7 +56,7 @@ class XMLMaker:
         if attrs is None:
             attrs = {}
         attrs = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{xml_attr(value)}"'
             for name, value in attrs.items()
         ])
         if not singleton:
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..3bc42e1 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -1,8 +1,7 @@
 import re
 from typing import List
-from xml.sax import saxutils
 
-from .writers.xml import XMLMaker
+from .writers.xml import XMLMaker, xml_text
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -105,7 +104,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(xml_text(char.get_text()), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
-- 
2.43.0


From 7dd722fbeeb2ef1efc51072ef2d3637ded93253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 32/78] fix: write any text and attribute as valid HTML

---
 pdfmajor/converters/html.py         | 3 ++-
 pdfmajor/converters/writers/html.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..8adab4c 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -1,3 +1,4 @@
+from html import escape
 from typing import List, Optional
 from .writers.html import HTMLMaker
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
@@ -81,7 +82,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
             }):
-                html.write(item.get_text())
+                html.write(escape(item.get_text(), quote=False))
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..f6d2bb3 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -1,6 +1,7 @@
 from typing import Optional
 from io import TextIOWrapper
 from contextlib import contextmanager
+from html import escape
 
 from pdfmajor.execptions import FileAccessException
 
@@ -45,7 +46,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{escape(str(value))}"'
             for name, value in attrs.items()
         ])
         if not singleton:
-- 
2.43.0


From 53f9d6e3643f7bcb0295b263cb60eff38afbec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 33/78] fix: convert curves without any extent to HTML

---
 pdfmajor/converters/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 8adab4c..1fd8053 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -174,7 +174,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
-- 
2.43.0


From 2cdd6658edd7748e406a4f5d99c62b214e0bfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 34/78] fix: refuse to convert a file onto itself

The output file is opened for writing first, which left nothing of the input.
---
 pdfmajor/converters/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/converters/__init__.py b/pdfmajor/converters/__init__.py
index f5ac0ef..b5e09b2 100644
--- a/pdfmajor/converters/__init__.py
+++ b/pdfmajor/converters/__init__.py
@@ -36,6 +36,8 @@ def convert_file(
         )
     if re.search(re.escape(out_type) + r'$', output_file ) is None:
         raise ConverterException("Please make sure that the file name and output type match!")
+    if os.path.realpath(output_file) == os.path.realpath(input_file):
+        raise ConverterException("Please make sure that the output file is not the input file!")
     if out_type == 'html':
         return convert_to_html(
             input_file_path=input_file, 
-- 
2.43.0


From b6fa012e97381943e99644e7bb148d39b4c07793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 35/78] fix: take the object behind trailer for the trailer
 dictionary

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 ++-
 pdfmajor/parser/PDFParser.py           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 0e979ab..c02554e 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -91,7 +91,8 @@ class PDFXRef(PDFBaseXRef):
                 raise PDFNoValidXRef('Trailer not found: %r' % kwd)
             (_, dic) = parser.nextobject()
         except PSEOF:
-            x = parser.pop(1)
+            # nothing tells the end of the trailer, it is the first object
+            x = parser.popall()
             if not x:
                 raise PDFNoValidXRef('Unexpected EOF - file corrupted')
             (_, dic) = x[0]
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index eb3527d..e814c21 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -60,7 +60,7 @@ class PDFParser(PSStackParser):
         """Handles PDF-related keywords."""
 
         if token in (self.KEYWORD_XREF, self.KEYWORD_STARTXREF):
-            self.add_results(*self.pop(1))
+            self.add_results(*self.popall())
 
         elif token is self.KEYWORD_ENDOBJ:
             self.add_results(*self.pop(4))
-- 
2.43.0


From 678b454029b30b0aa9e3e5855ec48f735fee5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 36/78] fix: find the trailer behind white space when the table
 is rebuilt

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index c02554e..4d9070d 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -120,6 +120,7 @@ class PDFXRefFallback(PDFXRef):
     def __repr__(self):
         return '<PDFXRefFallback: offsets=%r>' % (self.offsets.keys())
 
+    TRAILER_CUE = re.compile(br'[\0\s]*(trailer)')
     PDFOBJ_CUE = re.compile(r'^(\d+)\s+(\d+)\s+obj\b')
 
     def load(self, parser):
@@ -130,8 +131,9 @@ class PDFXRefFallback(PDFXRef):
                 (pos, line) = parser.nextline()
             except PSEOF:
                 break
-            if line.startswith(b'trailer'):
-                parser.seek(pos)
+            m = self.TRAILER_CUE.match(line)
+            if m:
+                parser.seek(pos + m.start(1))
                 try:
                     self.load_trailer(parser)
                 except (PSException, PDFException, PDFNoValidXRef) as e:
-- 
2.43.0


From 2d58709c63e75ce0ed273a9373e46564b245c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 37/78] fix: intern a name once when threads do it at the same
 time

---
 pdfmajor/parser/PSStackParser/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/types.py b/pdfmajor/parser/PSStackParser/types.py
index 38fae37..1ac6f49 100644
--- a/pdfmajor/parser/PSStackParser/types.py
+++ b/pdfmajor/parser/PSStackParser/types.py
@@ -75,6 +75,6 @@ class PSSymbolTable(object):
         if name in self.dict:
             lit = self.dict[name]
         else:
-            lit = self.klass(name)
-            self.dict[name] = lit
+            # another thread may be interning the same name
+            lit = self.dict.setdefault(name, self.klass(name))
         return lit
\ No newline at end of file
-- 
2.43.0


From b0814c90e5fff7be3e39a3371c2e6f84f3092398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 38/78] fix: save JPEG images whose data is encrypted or was
 used before

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..ae191bc 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -59,7 +59,8 @@ class LTImage(LTComponent):
         
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
+                # also when it was deciphered or used before
+                raw_data = stream.get_data()
                 if LITERAL_DEVICE_CMYK in self.colorspace:
                     ifp = BytesIO(raw_data)
                     i = pillow.Image.open(ifp)
-- 
2.43.0


From 993df9d82f88ceff6c0d42cc55631181e0b5f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 39/78] fix: import the modules that convert CMYK images

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index ae191bc..0a719d5 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,7 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -63,8 +63,8 @@ class LTImage(LTComponent):
                 raw_data = stream.get_data()
                 if LITERAL_DEVICE_CMYK in self.colorspace:
                     ifp = BytesIO(raw_data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = Image.open(ifp)
+                    i = ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-- 
2.43.0


From 64b7bbba36cdc365891a30bd074436230029de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 40/78] fix: resolve references to the attributes of images

---
 .../interpreter/commands/state/layout/LTImage.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 0a719d5..4b9254f 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE, resolve1
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -22,11 +22,11 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
         return
-- 
2.43.0


From a90bdd38522dfe6e88df50374161cfde4bec1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 41/78] fix: save images of one bit per sample

---
 pdfmajor/BMPWriter/__init__.py                        | 2 +-
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..1f7d9cb 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -56,5 +56,5 @@ class BMPWriter(object):
 
     def write_line(self, y, data):
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        self.fp.write(data.ljust(self.linesize, b'\0'))
         return
diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 4b9254f..3d470a9 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -70,7 +70,9 @@ class LTImage(LTComponent):
                 else:
                     fp.write(raw_data)
             elif bits == 1:
-                BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
+                # the size in samples, not the one on the page
+                (cols, rows) = self.srcsize
+                BMPWriter.write_all(fp, stream, 1, cols, rows, (cols+7)//8)
             elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
             elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
-- 
2.43.0


From b1a12d5a1767929cc9be6627c6c830cef472db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 42/78] fix: open encrypted documents whose permissions are
 unsigned

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index df8d5bc..1f63bf8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -75,7 +75,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From 6bd5e56b4d1a3e5385f5295488b84f650bf3c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 43/78] fix: strip the padding of data encrypted with AES

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 1f63bf8..70894e5 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -8,6 +8,13 @@ from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
 
+def unpad_aes(data):
+    "Removes the padding, which fills up the last block and says how long it is"
+    n = data[-1] if data else 0
+    if 1 <= n <= 16 and data.endswith(data[-1:] * n):
+        return data[:-n]
+    return data
+
 ##  PDFSecurityHandler
 ##
 class PDFStandardSecurityHandler(object):
@@ -187,7 +194,7 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return unpad_aes(AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:]))
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -232,4 +239,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return unpad_aes(AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:]))
-- 
2.43.0


From 6de805fd5882f3e7065780d1f0f6acbfe58b90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 44/78] fix: reject passwords outside latin-1 as incorrect

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 70894e5..e05a8a9 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -96,7 +96,11 @@ class PDFStandardSecurityHandler(object):
         return result[:n]
 
     def authenticate(self, password):
-        password = password.encode("latin1")
+        try:
+            password = password.encode("latin1")
+        except UnicodeEncodeError:
+            # not a password for this kind of encryption
+            return None
         key = self.authenticate_user_password(password)
         if key is None:
             key = self.authenticate_owner_password(password)
-- 
2.43.0


From 2fc75e71ab7418ebac067c942a32ff4107443679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 45/78] fix: take no password for the empty one

---
 pdfmajor/parser/PDFDocument/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 59fba87..ac1e4dd 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -123,7 +123,7 @@ class PDFDocument(object):
         factory = self.security_handler_registry.get(v)
         if factory is None:
             raise PDFEncryptionError('Unknown algorithm: param=%r' % param)
-        handler = factory(docid, param, password)
+        handler = factory(docid, param, password or '')
         self.decipher = handler.decrypt
         self.is_printable = handler.is_printable()
         self.is_modifiable = handler.is_modifiable()
-- 
2.43.0


From 106d8fa2d3fe9d73fa73eb0e0425430077538625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 46/78] fix: convert to JSON without a password by default

---
 pdfmajor/converters/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..8948520 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -25,7 +25,7 @@ def convert_to_json(
     dont_export_images: bool = False,
     codec: str = 'utf-8',
     maxpages: int = 0, 
-    password: str = Optional[None], 
+    password: str = None, 
     caching: bool = True, 
     check_extractable: bool = True,
     ignore_bad_chars: bool = False,
-- 
2.43.0


From 1890577871ea340f7a48fcf30caf04705438591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 47/78] fix: decipher the strings of stream dictionaries

---
 pdfmajor/parser/PDFDocument/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index ac1e4dd..3624cda 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -30,7 +30,7 @@ from .PDFSecurityHandler import PDFStandardSecurityHandlerV4
 from .PDFSecurityHandler import PDFStandardSecurityHandlerV5
 from .PDFXRef import PDFXRefFallback, PDFXRef, PDFXRefStream
 
-from .constants import LITERAL_CATALOG, LITERAL_OBJSTM
+from .constants import LITERAL_CATALOG, LITERAL_OBJSTM, LITERAL_XREF
 
 log = getLogger(__name__)
 
@@ -229,6 +229,8 @@ class PDFDocument(object):
                     obj = self._getobj_parse(index, objid)
                     if self.decipher:
                         obj = decipher_all(self.decipher, objid, genno, obj)
+                        if isinstance(obj, PDFStream) and obj.get('Type') is not LITERAL_XREF:
+                            obj.attrs = decipher_all(self.decipher, objid, genno, obj.attrs)
 
                 if isinstance(obj, PDFStream):
                     obj.set_objid(objid, genno)
-- 
2.43.0


From c87e21aaee43bdc34a55957e6917cbbcab8ff96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 48/78] fix: show inline images that spell out their attributes

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 88f21e8..b7d5532 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -477,7 +477,7 @@ def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> P
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-    if 'W' in obj and 'H' in obj:
+    if obj.get_any(('W', 'Width')) is not None and obj.get_any(('H', 'Height')) is not None:
         stack.complete_layout_items.append(make_image(
             obj,  stack.t_matrix
         ))
-- 
2.43.0


From 558d85d235ca7d46a614f027cffb32244e345d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 49/78] fix: end at an XObject that draws itself

---
 pdfmajor/interpreter/commands/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 9d61de0..0cdac5b 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -18,7 +18,7 @@ from .utils import init_resources
 
 log = get_logger('process_command_stream')
 
-def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
+def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None, open_xobjects: tuple = ()):
     if font_cache is None:
         font_cache = {}
     parser = PDFContentParser(streams)
@@ -52,6 +52,13 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
         
         for complete_item in state.complete_layout_items:
             if isinstance(complete_item, LTXObject):
+                xobj_id = complete_item.stream.objid
+                if xobj_id is None:
+                    xobj_id = id(complete_item.stream)
+                if xobj_id in open_xobjects:
+                    log.warning('XObject %r draws itself', complete_item)
+                    yield complete_item
+                    continue
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
@@ -63,7 +70,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-                    state=xobj_state
+                    state=xobj_state,
+                    open_xobjects=open_xobjects + (xobj_id,)
                 ):
                     complete_item.add(item)
             yield complete_item
-- 
2.43.0


From ff5b5d7ba9cbc042712315e842309247beddf2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 50/78] fix: decode CCITT images on current Python versions

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..b58afb5 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -541,7 +541,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
-- 
2.43.0


From 746321f0cab98d25df4da6cd57b5183ad5784d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 51/78] fix: refuse CCITT images of absurd widths

---
 pdfmajor/parser/PDFStream/ccitt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index b58afb5..1a480d7 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -15,6 +15,9 @@ import array
 from pdfmajor.execptions import EOFB, InvalidData, ByteSkip
 from abc import abstractmethod
 
+# no image is wider than this
+MAX_COLUMNS = 65536
+
 def get_bytes(data):
     for byte in data:
         yield byte
@@ -547,7 +550,9 @@ class CCITTFaxDecoder(CCITTG4Parser):
 
 def ccittfaxdecode(data, params):
     K = params.get('K')
-    cols = params.get('Columns')
+    cols = params.get('Columns', 1728)
+    if not isinstance(cols, int) or not 0 < cols <= MAX_COLUMNS:
+        raise ValueError(cols)
     bytealign = params.get('EncodedByteAlign')
     reversed = params.get('BlackIs1')
     if K == -1:
-- 
2.43.0


From 0af4ad3f073f5d0c7c11c1265c9299a037b88102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 52/78] fix: read no more than 65536 codes of a CMap range

---
 pdfmajor/parser/cmapdb/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..4df3d4f 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -266,6 +266,9 @@ class CMapDB(object):
 ##
 class CMapParser(PSStackParser):
 
+    # CIDs have two bytes
+    MAX_RANGE = 65536
+
     def __init__(self, cmap, fp):
         PSStackParser.__init__(self, fp)
         self.cmap = cmap
@@ -352,7 +355,7 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(evar)
                 vlen = len(svar)
                 #assert s1 <= e1, str((s1, e1))
-                for i in range(e1-s1+1):
+                for i in range(min(e1-s1+1, self.MAX_RANGE)):
                     x = sprefix+struct.pack('>L', s1+i)[-vlen:]
                     self.cmap.add_code2cid(x, cid+i)
             return
@@ -380,14 +383,14 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
+                    for i in range(min(e1-s1+1, self.MAX_RANGE)):
                         self.cmap.add_cid2unichr(s1+i, code[i])
                 else:
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
-                    for i in range(e1-s1+1):
+                    for i in range(min(e1-s1+1, self.MAX_RANGE)):
                         x = prefix+struct.pack('>L', base+i)[-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
-- 
2.43.0


From 72814a5db5d15a6700f09f5f927f8ec68eb4d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 53/78] fix: read no widths of characters that cannot exist

---
 .../commands/state/PDFTextState/PDFFont/util.py            | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index fc01caf..743f469 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,6 +1,9 @@
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 
 
+# CIDs have two bytes
+MAX_CID = 65535
+
 def get_widths(seq):
     widths = {}
     r = []
@@ -15,7 +18,7 @@ def get_widths(seq):
             r.append(v)
             if len(r) == 3:
                 (char1, char2, w) = r
-                for i in range(char1, char2+1):
+                for i in range(max(char1, 0), min(char2, MAX_CID)+1):
                     widths[i] = w
                 r = []
     return widths
@@ -37,7 +40,7 @@ def get_widths2(seq):
             r.append(v)
             if len(r) == 5:
                 (char1, char2, w, vx, vy) = r # pylint: disable=E0632
-                for i in range(char1, char2+1):
+                for i in range(max(char1, 0), min(char2, MAX_CID)+1):
                     widths[i] = (w, (vx, vy))
                 r = []
     return widths
-- 
2.43.0


From 10556dd988bf78e9d4107f232443cc1ecd856efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 54/78] fix: decode PNG predictors of several colours and
 averages

---
 pdfmajor/utils/generic.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 118af8c..43577cc 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -33,7 +33,7 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
     nbytes = colors * columns * bitspercomponent // 8
     i = 0
     buf = b''
-    line0 = b'\x00' * columns
+    line0 = bytes(min(nbytes, len(data)))
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
@@ -43,22 +43,20 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
             # PNG none
             line2 += line1
         elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
-                line2 += int2byte(c)
+            # PNG sub
+            for (j, b) in enumerate(line1):
+                a = line2[j-colors] if colors <= j else 0
+                line2 += int2byte((a+b) & 255)
         elif ft == 2:
             # PNG up
             for (a, b) in zip(line0, line1):
                 c = (a+b) & 255
                 line2 += int2byte(c)
         elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
-                line2 += int2byte(c)
+            # PNG average
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                c = line2[j-colors] if colors <= j else 0
+                line2 += int2byte(((a+c)//2+b) & 255)
         else:
             # unsupported
             raise ValueError("Unsupported predictor value: %d" % ft)
-- 
2.43.0


From 5e6fbda2f4e3eca07a0090c9fc5f0f772d1b31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 55/78] fix: ignore white space and what follows the end in
 ASCIIHex data

---
 pdfmajor/utils/ascii85.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..d0fc28d 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -64,6 +64,7 @@ def asciihexdecode(data):
         return int2byte(i)
 
     out=b''
+    data = data.partition(b'>')[0].translate(None, b'\0\t\n\f\r ')
     for x in hex_re.findall(data):
         out+=decode(x)
 
-- 
2.43.0


From 66bb85b6666a38c16f2fedb9228a1f4ebea4e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 56/78] fix: continue the search for objects where it was

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4d9070d..4c9dc5c 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -156,7 +156,10 @@ class PDFXRefFallback(PDFXRef):
             try:
                 (_, obj) = parser.nextobject()
                 if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
+                    next_pos = parser.tell()
                     self.load_objstm(objid, PDFStream.validated_stream(obj))
+                    # what the stream refers to may have been read elsewhere
+                    parser.seek(next_pos)
             except PSEOF:
                 # the file ends inside of this object, do not search it again and again
                 expand = False
-- 
2.43.0


From 1ba7a7b0f6519837fe4584df211c0448ac44a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 57/78] fix: refuse composite fonts made of composite fonts

---
 .../interpreter/commands/state/PDFTextState/PDFFont/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index 4ef00d7..a91c356 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -42,6 +42,8 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
             dfonts = list_value(spec['DescendantFonts'])
             assert dfonts
             subspec = dict_value(dfonts[0]).copy()
+            if literal_name(subspec.get('Subtype')) == 'Type0':
+                raise FontError('Not a descendant font: %r' % subspec)
             for k in ('Encoding', 'ToUnicode'):
                 if k in spec:
                     subspec[k] = resolve1(spec[k])
-- 
2.43.0


From 249283ea6d22d4a49a0893297e0b870b29f0266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 58/78] fix: decipher deeply nested objects

---
 pdfmajor/parser/PDFStream/util.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index e73bd59..4e4e312 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -39,15 +39,25 @@ def resolve_all(x, default=None):
 
 
 def decipher_all(decipher, objid, genno, x):
-    """Recursively deciphers the given object.
+    """Deciphers the given object and all the internals, in place.
     """
     if isinstance(x, bytes):
         return decipher(objid, genno, x)
-    if isinstance(x, list):
-        x = [decipher_all(decipher, objid, genno, v) for v in x]
-    elif isinstance(x, dict):
-        for (k, v) in x.items():
-            x[k] = decipher_all(decipher, objid, genno, v)
+    # a loop, as objects may be nested more deeply than calls
+    todo = [x]
+    while todo:
+        c = todo.pop()
+        if isinstance(c, list):
+            items = enumerate(c)
+        elif isinstance(c, dict):
+            items = c.items()
+        else:
+            continue
+        for (k, v) in items:
+            if isinstance(v, bytes):
+                c[k] = decipher(objid, genno, v)
+            else:
+                todo.append(v)
     return x
 # Type cheking
 def int_value(x):
-- 
2.43.0


From 92cde62dc28a975cd2654736d28dff1ade39452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 59/78] fix: refuse XObjects nested more deeply than calls may
 be

---
 pdfmajor/interpreter/commands/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 0cdac5b..9d37b5b 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -18,6 +18,8 @@ from .utils import init_resources
 
 log = get_logger('process_command_stream')
 
+MAX_NESTING = 200
+
 def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None, open_xobjects: tuple = ()):
     if font_cache is None:
         font_cache = {}
@@ -59,6 +61,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     log.warning('XObject %r draws itself', complete_item)
                     yield complete_item
                     continue
+                if MAX_NESTING <= len(open_xobjects):
+                    raise CommandProcessorError('XObjects are nested too deeply')
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
-- 
2.43.0


From 77f492e5bfbd71fccd9480c8c074bbc70287a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 60/78] fix: an R that follows no two numbers is no reference,
 and takes nothing away

---
 pdfmajor/parser/PDFParser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index e814c21..c0efdbf 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -71,13 +71,15 @@ class PDFParser(PSStackParser):
 
         elif token is self.KEYWORD_R:
             # reference to indirect object
+            objs = self.pop(2)
             try:
-                ((_, objid), (_, genno)) = self.pop(2) # pylint: disable=E0632
+                ((_, objid), (_, genno)) = objs # pylint: disable=E0632
                 (objid, genno) = (int(objid), int(genno)) # pylint: disable=E0632
                 obj = PDFObjRef(self.doc, objid, genno) # pylint: disable=E0632
                 self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            except (PSSyntaxError, TypeError, ValueError, OverflowError):
+                # not a reference
+                self.push(*objs)
 
         elif token is self.KEYWORD_STREAM:
             # stream object
@@ -162,13 +164,15 @@ class PDFStreamParser(PDFParser):
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_R:
             # reference to indirect object
+            objs = self.pop(2)
             try:
-                ((_, objid), (_, genno)) = self.pop(2) # pylint: disable=E0632
+                ((_, objid), (_, genno)) = objs # pylint: disable=E0632
                 (objid, genno) = (int(objid), int(genno))
                 obj = PDFObjRef(self.doc, objid, genno)
                 self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            except (PSSyntaxError, TypeError, ValueError, OverflowError):
+                # not a reference
+                self.push(*objs)
             return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
             if settings.STRICT:
-- 
2.43.0


From e3dae8523aaf497f4440ebc083c429d6e89d2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 61/78] fix: a trailer that cannot be read does not keep the
 file from being opened

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4c9dc5c..2bc3d6d 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -136,7 +136,7 @@ class PDFXRefFallback(PDFXRef):
                 parser.seek(pos + m.start(1))
                 try:
                     self.load_trailer(parser)
-                except (PSException, PDFException, PDFNoValidXRef) as e:
+                except (PSException, PDFException, PDFNoValidXRef, ValueError, TypeError, LookupError) as e:
                     log.info('Invalid trailer: %r', e)
                 log.info('trailer: %r', self.trailer)
                 break
-- 
2.43.0


From d5130f5931a348c96284440f8b005077d15d5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 62/78] fix: a failed read does not move the reader

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index a53eeea..382db32 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -69,10 +69,10 @@ class PSBaseParser(object):
     def fillbuf(self):
         if self.charpos < len(self.buf):
             return
-        # fetch next chunk.
-        self.bufpos = self.fp.tell()
-        self.buf = self.fp.read(self.BUFSIZ)
-        self.charpos = 0
+        # fetch next chunk; nothing changes if that fails
+        bufpos = self.fp.tell()
+        buf = self.fp.read(self.BUFSIZ)
+        (self.bufpos, self.buf, self.charpos) = (bufpos, buf, 0)
         if not self.buf:
             raise PSEOF('Unexpected EOF')
         return
@@ -96,7 +96,13 @@ class PSBaseParser(object):
         linepos = self.bufpos + self.charpos
         eol = False
         while 1:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except OSError:
+                # what was read of the line is read again the next time
+                self.fp.seek(linepos)
+                (self.bufpos, self.buf, self.charpos) = (linepos, b'', 0)
+                raise
             if eol:
                 c = self.buf[self.charpos:self.charpos+1]
                 # handle b'\r\n'
-- 
2.43.0


From 2f54c40c3b2a1b64c0b047877a232b0db73d37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 63/78] fix: an entry of a font descriptor does not take the
 place of what a block says itself, nor break the XML

---
 pdfmajor/converters/json.py |  5 ++++-
 pdfmajor/converters/xml.py  | 13 +++++++++++--
 pdfmajor/converters/yaml.py |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 8948520..8e998b1 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -92,6 +92,9 @@ def place_text_block(json: JSONMakerObject, text_block: LTTextBlock):
             with cb_arr.object() as cb_obj:
                 place_char_block(cb_obj, cb)
 
+# what is said of a block by itself: no entry of its font may take the place
+BLOCK_KEYS = {"size", "x0", "x1", "y0", "y1", "color", "text"}
+
 def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("size", char_block.size)
     json.number("x0", char_block.x0)
@@ -104,7 +107,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
+        if key != "Type" and "FontFile" not in key and key not in BLOCK_KEYS:
             json.string(key, value)
     json.string("text", 
         "".join([
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 3bc42e1..ae52dcc 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -16,6 +16,14 @@ def convert_capcase_to_snakecase(text: str) -> str:
     s1 = FIRST_CAP_RE.sub(r'\1-\2', text)
     return ALL_CAP_RE.sub(r'\1-\2', s1).lower()
 
+def attribute_name(text: str) -> str:
+    """Spells any key as a name XML allows"""
+    name = re.sub('[^a-zA-Z0-9_.-]', '_', convert_capcase_to_snakecase(str(text)))
+    return name if re.match('[a-zA-Z_]', name) else '_' + name
+
+# what is said of a block by itself: no entry of its font may take the place
+BLOCK_KEYS = {"size", "x0", "x1", "y0", "y1", "color-type", "color-values"}
+
 def normalize_color_values(values: list):
     ret = ""
     for i,v in enumerate(values):
@@ -116,8 +124,9 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
         **get_color(char_block.color, codec=xml.codec),
     }
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+        name = attribute_name(key)
+        if key != "Type" and "FontFile" not in key and name not in BLOCK_KEYS:
+            attr[name] = value
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9499cdd..4c51c28 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -92,6 +92,9 @@ def place_text_block(yaml: YAMLMakerObject, text_block: LTTextBlock):
             with cb_arr.object() as cb_obj:
                 place_char_block(cb_obj, cb)
 
+# what is said of a block by itself: no entry of its font may take the place
+BLOCK_KEYS = {"size", "x0", "x1", "y0", "y1", "color", "text"}
+
 def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("size", char_block.size)
     yaml.write("x0", char_block.x0)
@@ -104,7 +107,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
+        if key != "Type" and "FontFile" not in key and key not in BLOCK_KEYS:
             yaml.write(key, value)
     yaml.string("text", 
         "".join([
-- 
2.43.0


From 69d6d2d7cbb47984c2bd5b83fb22c9e2705a49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 64/78] fix: HTML paths keep the curves written with v and y

---
 pdfmajor/converters/html.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 1fd8053..63548fe 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -203,7 +203,11 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    # the points a curve without a first control point continues at
+    start = last = None
     for p in item.paths:
+        # 'v' starts and 'y' ends with a control point that is the end point itself
+        points = [ f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points ]
         if p.method == CurvePath.METHOD.MOVE_TO:
             path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
         elif p.method == CurvePath.METHOD.LINE_TO:
@@ -212,6 +216,16 @@ def create_svg_path(item: LTCurve):
             path += 'Z'
         elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
             path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
+        elif p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+            path += f'C{" ".join([last or points[0]] + points)} '
+        elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+            path += f'C{" ".join(points + points[-1:])} '
+        if p.method == CurvePath.METHOD.CLOSE_PATH:
+            last = start
+        elif points:
+            last = points[-1]
+            if p.method == CurvePath.METHOD.MOVE_TO:
+                start = last
     
     return path, svg_attr
 
-- 
2.43.0


From de6473b50e3e819acf9c75de35b5fb892e70fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 65/78] fix: names are not escaped for HTML before JSON, YAML
 and XML escape them

---
 pdfmajor/converters/json.py | 13 ++++++-------
 pdfmajor/converters/xml.py  |  9 ++++-----
 pdfmajor/converters/yaml.py | 13 ++++++-------
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 8e998b1..35a788b 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -7,15 +7,14 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_json(
@@ -73,7 +72,7 @@ def render(json: JSONMakerObject, item: LTItem):
             # if json.imagewriter is not None:
             #     name = json.imagewriter.export_image(item)
             json.string("type", 'img')
-            json.string("src", enc(item.name, None))
+            json.string("src", item.name)
             json.number("x0", item.x0)
             json.number("x1", item.x1)
             json.number("y0", item.y0)
@@ -103,7 +102,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
         json.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -123,12 +122,12 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("y1", item.y1)
     if item.fill.color_space is not None:
         json.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": item.fill.color_space.name,
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         json.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": item.stroke.color_space.name,
             "value": normalize_color_values(item.stroke.values)
         })
                     
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index ae52dcc..b4c2028 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -8,7 +8,6 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 FIRST_CAP_RE = re.compile('(.)([A-Z][a-z]+)')
 ALL_CAP_RE = re.compile('([a-z0-9])([A-Z])')
@@ -30,15 +29,15 @@ def normalize_color_values(values: list):
         if i > 0:
             ret += ','
         if isinstance(v, PSLiteral):
-            ret += enc(str(v.name)).decode()
+            ret += str(v.name)
         else:
-            ret += enc(str(v)).decode()
+            ret += str(v)
     return ret
 
 def get_color(col: PDFColor, prefix: str = 'color', codec = 'utf-8'):
     if col.color_space is not None:
         return {
-            f"{prefix}-type": enc(col.color_space.name).decode(),
+            f"{prefix}-type": col.color_space.name,
             f"{prefix}-values": normalize_color_values(col.values)
         }
     return {}
@@ -89,7 +88,7 @@ def render_page(xml: XMLMaker, ltpage: PageInterpreter):
             # if xml.imagewriter is not None:
             #     name = xml.imagewriter.export_image(item)
             xml.singleton('img', attrs={
-                'src': enc(name, None),
+                'src': name,
                 "x0": item.x0,
                 "x1": item.x1,
                 "y0": item.y0,
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 4c51c28..d30aa07 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -7,15 +7,14 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_yaml(
@@ -73,7 +72,7 @@ def render(yaml: YAMLMakerObject, item: LTItem):
         # if yaml.imagewriter is not None:
         #     name = yaml.imagewriter.export_image(item)
         yaml.write("type", 'img')
-        yaml.write("src", enc(item.name, None))
+        yaml.write("src", item.name)
         yaml.write("x0", item.x0)
         yaml.write("x1", item.x1)
         yaml.write("y0", item.y0)
@@ -103,7 +102,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -139,11 +138,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": item.fill.color_space.name,
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": item.stroke.color_space.name,
             "value": normalize_color_values(item.stroke.values)
         })
\ No newline at end of file
-- 
2.43.0


From 5aa73b1800a21e740abe2a712c810a8095f23b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 66/78] fix: an unknown output type is refused

---
 pdfmajor/converters/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/converters/__init__.py b/pdfmajor/converters/__init__.py
index b5e09b2..10ecb6e 100644
--- a/pdfmajor/converters/__init__.py
+++ b/pdfmajor/converters/__init__.py
@@ -27,6 +27,8 @@ def convert_file(
         debug_level: int = logging.WARNING,
         out_type: str = 'html',
     ):
+    if out_type not in ('html', 'xml', 'json', 'yaml', 'yml', 'text'):
+        raise ConverterException("There is no output type %r!" % out_type)
     if output_file is None:
         output_file = os.path.join(
             os.path.dirname(input_file),
-- 
2.43.0


From bab154b4053a675e489b7ca8b4f1f051ce122f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 67/78] fix: pdfconvert passes the output type and the path of
 the output

---
 tools/pdfconvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/pdfconvert.py b/tools/pdfconvert.py
index bf8706f..77f8981 100755
--- a/tools/pdfconvert.py
+++ b/tools/pdfconvert.py
@@ -41,6 +41,7 @@ def main(args=None):
     if parsed_args.pagenos:
         func_args['pagenos'] = set([int(x)-1 for x in parsed_args.pagenos.split(",")])
 
+    func_args['out_type'] = parsed_args.output_type
     if parsed_args.output_type == "text" and parsed_args.output_file != "-":
         for override, alttype in (  (".htm",  "html"),
                                     (".html", "html"),
@@ -51,7 +52,7 @@ def main(args=None):
 
     if len(parsed_args.files) == 1:
         if parsed_args.output_file != "-":
-            func_args['output_file'] = open(parsed_args.output_file, "wb")
+            func_args['output_file'] = parsed_args.output_file
         convert_file(
             parsed_args.files[0],
             **func_args
-- 
2.43.0


From 6fb198f6bb97dd4c1cd3a27fe307ba60a5a94847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 68/78] fix: interrupts are not swallowed while names are
 decoded or logged

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py |  2 +-
 pdfmajor/parser/PSStackParser/__init__.py     | 12 +++---------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 382db32..8778c78 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -223,7 +223,7 @@ class PSBaseParser(object):
             return j+1
         try:
             self._curtoken=str(self._curtoken,'utf-8')
-        except:
+        except UnicodeDecodeError:
             pass
         self._add_token(LIT(self._curtoken))
         self._current_parse_func = self._parse_main
diff --git a/pdfmajor/parser/PSStackParser/__init__.py b/pdfmajor/parser/PSStackParser/__init__.py
index 7b790f1..99e05eb 100644
--- a/pdfmajor/parser/PSStackParser/__init__.py
+++ b/pdfmajor/parser/PSStackParser/__init__.py
@@ -21,7 +21,7 @@ def literal_name(x):
         name=x.name
         try:
             name = str(name,'utf-8')
-        except:
+        except (TypeError, UnicodeDecodeError):
             pass
     return name
 
@@ -72,10 +72,7 @@ class PSStackParser(PSBaseParser):
         return objs
 
     def add_results(self, *objs):
-        try:
-            log.debug('add_results: %r', objs)
-        except:
-            log.debug('add_results: (unprintable object)')
+        log.debug('add_results: %r', objs)
         self.results.extend(objs)
         return
 
@@ -162,8 +159,5 @@ class PSStackParser(PSBaseParser):
             else:
                 self.flush()
         obj = self.results.pop(0)
-        try:
-            log.debug('nextobject: %r', obj)
-        except:
-            log.debug('nextobject: (unprintable object)')
+        log.debug('nextobject: %r', obj)
         return obj
-- 
2.43.0


From f1deda00760cc860ce1646180ca3fa78ba463df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 69/78] fix: an interrupted look-up does not leave its object
 marked as being resolved

---
 pdfmajor/parser/PDFDocument/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 3624cda..22fbb74 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -205,11 +205,13 @@ class PDFDocument(object):
             # needed to read itself
             raise PDFObjectNotFound(objid)
         else:
-            self._resolving.append(objid)
+            depth = len(self._resolving)
             try:
+                self._resolving.append(objid)
                 (obj, genno) = self._getobj(objid)
             finally:
-                self._resolving.pop()
+                # also if interrupted in front of the append
+                del self._resolving[depth:]
             log.debug('register: objid=%r: %r', objid, obj)
             if self.caching:
                 self._cached_objs[objid] = (obj, genno)
-- 
2.43.0


From c527837418010c428f34a9cc08dd7c2c162eb41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 70/78] fix: images are named by what they hold, not by an
 address that is used again

---
 .../interpreter/commands/state/layout/__init__.py   |  4 ++--
 pdfmajor/parser/PDFStream/__init__.py               | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 41b47f8..69476bb 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -112,7 +112,7 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
     return LTImage(
-        name=str(id(obj)),
+        name=obj.get_name(),
         stream=obj,
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
@@ -123,7 +123,7 @@ def make_image(obj, ctm):
 def make_xobject(obj, bbox, ctm, matrix, resources):
     (x, y, w, h) = bbox
     return LTXObject(
-        name=str(id(obj)),
+        name=obj.get_name(),
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
             for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 6308ae7..97ee481 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,4 +1,5 @@
 import zlib
+from hashlib import blake2b
 
 from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
 from ...utils import lzwdecode, settings
@@ -24,6 +25,7 @@ class PDFStream(PDFObject):
         assert isinstance(attrs, dict), str(type(attrs))
         self.attrs = attrs
         self.rawdata = rawdata
+        self.digest = blake2b(rawdata, digest_size=8).hexdigest()
         self.decipher = decipher
         self.data = None
         self.objid = None
@@ -58,6 +60,17 @@ class PDFStream(PDFObject):
                 return self.attrs[name]
         return default
 
+    def get_name(self):
+        # not its address, which the next stream may get when this one is gone
+        name = self.digest
+        if self.objid is not None:
+            return '%d-%s' % (self.objid, name)
+        for names in (('W', 'Width'), ('H', 'Height'), ('BPC', 'BitsPerComponent')):
+            value = self.get_any(names)
+            if isinstance(value, int):
+                name += '-%d' % value
+        return name
+
     def get_filters(self):
         filters = resolve1(self.get_any(('F', 'Filter')))
         params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
-- 
2.43.0


From 78f1cf2f9d2a4d7d23dbc292e492f59191096dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 71/78] fix: a backslash at the end of a line in a string
 continues it whatever the line ends with, and one before any other character
 is ignored

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 8778c78..2a26cb7 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -323,11 +323,22 @@ class PSBaseParser(object):
             self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
+        if c == b'\r':
+            # the end of a line, which may have two characters
+            self._current_parse_func = self._parse_string_eol
+            return i+1
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c != b'\n':
+            # no escape at all: the backslash is ignored
+            self._curtoken += c
         self._current_parse_func = self._parse_string
         return i+1
 
+    def _parse_string_eol(self, s, i):
+        self._current_parse_func = self._parse_string
+        return i+1 if s[i:i+1] == b'\n' else i
+
     def _parse_wopen(self, s, i):
         c = s[i:i+1]
         if c == b'<':
-- 
2.43.0


From 778ab520f52352e4e7ae6ebe05c16c5c66ff4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 72/78] fix: the boxes and the kind of a page may be objects of
 their own

---
 pdfmajor/parser/PDFPage.py        | 12 ++++++------
 pdfmajor/parser/PDFStream/util.py |  6 ++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index cc29ea6..4167e64 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -4,7 +4,7 @@ import logging
 from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound
 from ..utils import settings
 from .constants import LIT
-from .PDFStream import resolve1, int_value, list_value, dict_value
+from .PDFStream import resolve1, resolve_list, int_value, list_value, dict_value
 from .PDFParser import PDFParser
 from .PDFDocument import PDFDocument
 
@@ -52,9 +52,9 @@ class PDFPage(object):
         self.attrs = dict_value(attrs)
         self.lastmod = resolve1(self.attrs.get('LastModified'))
         self.resources = resolve1(self.attrs.get('Resources', dict()))
-        self.mediabox = resolve1(self.attrs['MediaBox'])
+        self.mediabox = resolve_list(self.attrs['MediaBox'])
         if 'CropBox' in self.attrs:
-            self.cropbox = resolve1(self.attrs['CropBox'])
+            self.cropbox = resolve_list(self.attrs['CropBox'])
         else:
             self.cropbox = self.mediabox
         self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360
@@ -91,9 +91,9 @@ class PDFPage(object):
                     if k in cls.INHERITABLE_ATTRS and k not in tree:
                         tree[k] = v
 
-                tree_type = tree.get('Type')
+                tree_type = resolve1(tree.get('Type'))
                 if tree_type is None and not settings.STRICT:  # See #64
-                    tree_type = tree.get('type')
+                    tree_type = resolve1(tree.get('type'))
 
                 if tree_type is LITERAL_PAGES and 'Kids' in tree:
                     if objid in visited:
@@ -121,7 +121,7 @@ class PDFPage(object):
                     visited.add(objid)
                     try:
                         obj = document.getobj(objid)
-                        if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
+                        if isinstance(obj, dict) and resolve1(obj.get('Type')) is LITERAL_PAGE:
                             yield cls(document, objid, obj)
                     except PDFObjectNotFound:
                         pass
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 4e4e312..1459d3b 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -23,6 +23,12 @@ def resolve1(x, default=None):
     return x
 
 
+def resolve_list(x):
+    """Resolves an array and its elements, but nothing inside of them.
+    """
+    return [resolve1(v) for v in list_value(x)]
+
+
 def resolve_all(x, default=None):
     """Recursively resolves the given object and all the internals.
 
-- 
2.43.0


From 6994227d8728db352b83e14f67ec5fbd68b00122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 73/78] fix: what a font dictionary holds may be objects of its
 own

---
 .../state/PDFTextState/PDFFont/PDFFont.py     | 10 ++++----
 .../state/PDFTextState/PDFFont/__init__.py    |  6 ++---
 .../state/PDFTextState/PDFFont/fonts.py       | 25 +++++++++++--------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..8d87ff9 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -7,7 +7,7 @@ from pdfmajor.parser.EncodingDB import EncodingDB
 from pdfmajor.parser.PSStackParser import LIT
 from pdfmajor.parser.PSStackParser import PSLiteral
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import resolve1
+from pdfmajor.parser.PDFStream import resolve1, resolve_list
 from pdfmajor.parser.PDFStream import int_value
 from pdfmajor.parser.PDFStream import num_value
 from pdfmajor.parser.PDFStream import list_value
@@ -36,7 +36,7 @@ class PDFFont(object):
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
         self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
         self.leading = num_value(descriptor.get('Leading', 0))
-        self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
+        self.bbox = resolve_list(descriptor.get('FontBBox', (0, 0, 0, 0)))
         self.hscale = self.vscale = .001
         return
 
@@ -92,7 +92,7 @@ class PDFFont(object):
     @property
     def font_weight(self):
         if 'FontWeight' in self.descriptor.keys():
-            return self.descriptor['FontWeight']
+            return resolve1(self.descriptor['FontWeight'])
         elif 'bold' in self.fontname.lower():
             return 'bold'
         else:
@@ -114,8 +114,8 @@ class PDFSimpleFont(PDFFont):
         else:
             encoding = LITERAL_STANDARD_ENCODING
         if isinstance(encoding, dict):
-            name = literal_name(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING))
-            diff = list_value(encoding.get('Differences', []))
+            name = literal_name(resolve1(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING)))
+            diff = resolve_list(encoding.get('Differences', []))
             self.cid2unicode = EncodingDB.get_encoding(name, diff)
         else:
             self.cid2unicode = EncodingDB.get_encoding(literal_name(encoding))
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index a91c356..ffa810b 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -16,11 +16,11 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
     else:
         log.debug('get_font: create: objid=%r, spec=%r', objid, spec)
         if settings.STRICT:
-            if spec['Type'] is not LITERAL_FONT:
+            if resolve1(spec['Type']) is not LITERAL_FONT:
                 raise FontError('Type is not /Font')
         # Create a Font object.
         if 'Subtype' in spec:
-            subtype = literal_name(spec['Subtype'])
+            subtype = literal_name(resolve1(spec['Subtype']))
         else:
             if settings.STRICT:
                 raise FontError('Font Subtype is not specified.')
@@ -42,7 +42,7 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
             dfonts = list_value(spec['DescendantFonts'])
             assert dfonts
             subspec = dict_value(dfonts[0]).copy()
-            if literal_name(subspec.get('Subtype')) == 'Type0':
+            if literal_name(resolve1(subspec.get('Subtype'))) == 'Type0':
                 raise FontError('Not a descendant font: %r' % subspec)
             for k in ('Encoding', 'ToUnicode'):
                 if k in spec:
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..c5cc117 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -7,7 +7,7 @@ from pdfmajor.parser.PDFStream import num_value
 from pdfmajor.parser.PDFStream import list_value
 from pdfmajor.parser.PDFStream import dict_value
 from pdfmajor.parser.PDFStream import PDFStream
-from pdfmajor.parser.PDFStream import resolve1
+from pdfmajor.parser.PDFStream import resolve1, resolve_list
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
 from pdfmajor.parser.cmapdb import FileUnicodeMap
 from pdfmajor.utils import settings, apply_matrix_norm
@@ -17,12 +17,17 @@ from .util import FontMetricsDB, get_widths, get_widths2
 from .Type1FontHeaderParser import Type1FontHeaderParser
 from .TrueTypeFont import TrueTypeFont
 
+def resolve_widths(x):
+    # arrays may be within the array
+    return [resolve_list(v) if isinstance(v, list) else v for v in resolve_list(x)]
+
+
 # PDFType1Font
 class PDFType1Font(PDFSimpleFont):
 
     def __init__(self, spec):
         try:
-            self.basefont = literal_name(spec['BaseFont'])
+            self.basefont = literal_name(resolve1(spec['BaseFont']))
         except KeyError:
             if settings.STRICT:
                 raise FontError('BaseFont is missing')
@@ -33,7 +38,7 @@ class PDFType1Font(PDFSimpleFont):
             descriptor = dict_value(spec.get('FontDescriptor', {}))
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
-            widths = list_value(spec.get('Widths', [0]*256))
+            widths = resolve_list(spec.get('Widths', [0]*256))
             widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
@@ -62,7 +67,7 @@ class PDFType3Font(PDFSimpleFont):
     def __init__(self, spec):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
-        widths = list_value(spec.get('Widths', [0]*256))
+        widths = resolve_list(spec.get('Widths', [0]*256))
         widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
@@ -70,7 +75,7 @@ class PDFType3Font(PDFSimpleFont):
             descriptor = {'Ascent': 0, 'Descent': 0,
                           'FontBBox': spec['FontBBox']}
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
-        self.matrix = tuple(list_value(spec.get('FontMatrix')))
+        self.matrix = tuple(resolve_list(spec.get('FontMatrix')))
         (_, self.descent, _, self.ascent) = self.bbox
         (self.hscale, self.vscale) = apply_matrix_norm(self.matrix, (1, 1))
         return
@@ -84,7 +89,7 @@ class PDFCIDFont(PDFFont):
 
     def __init__(self, spec, strict=settings.STRICT):
         try:
-            self.basefont = literal_name(spec['BaseFont'])
+            self.basefont = literal_name(resolve1(spec['BaseFont']))
         except KeyError:
             if strict:
                 raise FontError('BaseFont is missing')
@@ -135,9 +140,9 @@ class PDFCIDFont(PDFFont):
         self.vertical = self.cmap.is_vertical()
         if self.vertical:
             # writing mode: vertical
-            widths = get_widths2(list_value(spec.get('W2', [])))
+            widths = get_widths2(resolve_widths(spec.get('W2', [])))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = resolve_list(spec.get('DW2', [880, -1000]))
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -145,8 +150,8 @@ class PDFCIDFont(PDFFont):
             # writing mode: horizontal
             self.disps = {}
             self.default_disp = 0
-            widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            widths = get_widths(resolve_widths(spec.get('W', [])))
+            default_width = resolve1(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
-- 
2.43.0


From 195cab8c699235fb06396f7e4ebc50df8001876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 74/78] fix: what forms and colour spaces hold may be objects
 of its own

---
 pdfmajor/interpreter/commands/commands.py | 10 +++++-----
 pdfmajor/interpreter/commands/utils.py    |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index b7d5532..c1aa744 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,7 +1,7 @@
 from pdfmajor.execptions import InvalidOperation
 from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value
+from pdfmajor.parser.PDFStream import PDFStream, dict_value, resolve1, resolve_list
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
@@ -492,14 +492,14 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
     except KeyError:
         raise InvalidOperation('Undefined xobject id: %r' % xobjid)
     # log.info('Processing xobj: %r', xobj)
-    subtype = xobj.get('Subtype')
+    subtype = resolve1(xobj.get('Subtype'))
     if subtype is LITERAL_FORM and 'BBox' in xobj:
-        bbox = list_value(xobj['BBox'])
-        matrix = list_value(xobj.get('Matrix', MATRIX_IDENTITY))
+        bbox = resolve_list(xobj['BBox'])
+        matrix = resolve_list(xobj.get('Matrix', MATRIX_IDENTITY))
         # According to PDF reference 1.7 section 4.9.1, XObjects in
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
-        xobjres = xobj.get('Resources')
+        xobjres = resolve1(xobj.get('Resources'))
         resources = dict_value(xobjres) if xobjres else stack.resources.copy()
         stack.complete_layout_items.append(make_xobject(
             obj=xobj, 
diff --git a/pdfmajor/interpreter/commands/utils.py b/pdfmajor/interpreter/commands/utils.py
index 1d7fce2..9109dce 100644
--- a/pdfmajor/interpreter/commands/utils.py
+++ b/pdfmajor/interpreter/commands/utils.py
@@ -9,11 +9,11 @@ from .state import PDFStateStack, get_font
 
 def get_colorspace(spec):
     if isinstance(spec, list):
-        name = literal_name(spec[0])
+        name = literal_name(resolve1(spec[0]))
     else:
         name = literal_name(spec)
     if name == 'ICCBased' and isinstance(spec, list) and 2 <= len(spec):
-        return PDFColorSpace(name, PDFStream.validated_stream(spec[1])['N'])
+        return PDFColorSpace(name, resolve1(PDFStream.validated_stream(spec[1])['N']))
     elif name == 'DeviceN' and isinstance(spec, list) and 2 <= len(spec):
         return PDFColorSpace(name, len(list_value(spec[1])))
     else:
-- 
2.43.0


From 89261465eb19ba0377593f98f0ec0fa5366065f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 75/78] fix: parameters of the CCITT filter may be objects of
 their own

---
 pdfmajor/parser/PDFStream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 97ee481..18c31e7 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -117,7 +117,7 @@ class PDFStream(PDFObject):
             elif f in LITERALS_RUNLENGTH_DECODE:
                 data = rldecode(data)
             elif f in LITERALS_CCITTFAX_DECODE:
-                data = ccittfaxdecode(data, params)
+                data = ccittfaxdecode(data, {k: resolve1(v) for (k, v) in params.items()})
             elif f in LITERALS_DCT_DECODE:
                 # This is probably a JPG stream - it does not need to be decoded twice.
                 # Just return the stream to the user.
-- 
2.43.0


From 4654b325ac32f6e07402bbfd8714301be024459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 76/78] fix: the number of objects in an object stream may be
 an object of its own

---
 pdfmajor/parser/PDFDocument/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 22fbb74..e6b7752 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -150,7 +150,7 @@ class PDFDocument(object):
             if settings.STRICT:
                 raise PDFSyntaxError('Not a stream object: %r' % stream)
         try:
-            n = stream['N']
+            n = int_value(stream['N'])
         except KeyError:
             if settings.STRICT:
                 raise PDFSyntaxError('N is not defined: %r' % stream)
-- 
2.43.0


From d5b6e191ce25d7e5885201cc6423c47081da27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 77/78] fix: a conversion whose output is another link to the
 input is refused

---
 pdfmajor/converters/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/converters/__init__.py b/pdfmajor/converters/__init__.py
index 10ecb6e..aa0cece 100644
--- a/pdfmajor/converters/__init__.py
+++ b/pdfmajor/converters/__init__.py
@@ -38,7 +38,9 @@ def convert_file(
         )
     if re.search(re.escape(out_type) + r'$', output_file ) is None:
         raise ConverterException("Please make sure that the file name and output type match!")
-    if os.path.realpath(output_file) == os.path.realpath(input_file):
+    if os.path.realpath(output_file) == os.path.realpath(input_file) or (
+            # another name of it
+            os.path.exists(output_file) and os.path.exists(input_file) and os.path.samefile(output_file, input_file)):
         raise ConverterException("Please make sure that the output file is not the input file!")
     if out_type == 'html':
         return convert_to_html(
-- 
2.43.0


From 260741f713540c7db0b0a897ead3db4da7df1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:21 +0000
Subject: [PATCH 78/78] fix: the HTML builder leaves the attributes it is given
 as they are

---
 pdfmajor/converters/writers/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index f6d2bb3..3537dab 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -41,6 +41,8 @@ class HTMLMaker:
         if attrs is None:
             attrs = {}
         if css is not None:
+            # the caller may give them again
+            attrs = dict(attrs)
             attrs['style'] = ";".join([
                 f'{name}: {value}'
                 for name, value in css.items()
-- 
2.43.0

