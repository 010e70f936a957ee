From 7840934308b249cc6302f1eab54fbbd95101f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 01/39] fix: strict mode accepts a closing quote at the end of
 a cell

---
 src/cparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..6613679 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -364,7 +364,9 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != '\0' &&
+						v != '\r' && v != '\n' &&
+						v != self->delimiter) {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From c38593151851e7de07359fd01c4110757006fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 02/39] fix: keep the last record when the input ends in an
 escape character

---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 6613679..83e929b 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -466,8 +466,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		lineobj = PyIter_Next(self->input_iter);
 		if (lineobj == NULL) {
 			/* End of input OR exception */
-			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+			if (!PyErr_Occurred() && self->state != START_RECORD) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From 03397121358e41c4f5f4a1ba3846c468d0c5b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 03/39] fix: cells stripped of non-ASCII quotes are well-formed
 strings

---
 src/cparser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 83e929b..dbd9fbf 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -159,9 +159,8 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	PyObject *new = PyUnicode_Substring(str, strip_front,
+			PyUnicode_GetLength(str) - strip_back);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From 8724eb28337f8633c99c9deacdedeb70cd50488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 04/39] fix: do not leak the parser arguments when the input is
 not iterable

---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index dbd9fbf..537174b 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -677,8 +677,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	if (self->input_iter == NULL) {
 		PyErr_SetString(PyExc_TypeError,
 				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
+		goto err;
 	}
 
 	PyObject_GC_Track(self);
-- 
2.43.0


From 3ca2a783ae567f69a0cddad2159772a3cbe245f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 05/39] fix: converting from and to csv dialects handles the
 strict setting

---
 clevercsv/dialect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..c0f9566 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -100,7 +100,9 @@ class SimpleDialect:
         delimiter = "" if d.delimiter is None else d.delimiter
         quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        # instances of csv.Dialect only have this attribute when it is set
+        strict = bool(getattr(d, "strict", False))
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
@@ -116,6 +118,7 @@ class SimpleDialect:
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
+            strict = self.strict
 
         return dialect()
 
-- 
2.43.0


From 7c1466195afe1c6efced66bea894d265cc64a11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 06/39] fix: the reader accepts csv.Dialect classes and
 registered dialects

---
 clevercsv/read.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..dc55986 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -16,6 +16,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -46,8 +48,10 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)):
             sd = SimpleDialect.from_csv_dialect(dialect)
+        elif isinstance(dialect, type) and issubclass(dialect, csv.Dialect):
+            sd = SimpleDialect.from_csv_dialect(dialect())
         elif isinstance(dialect, SimpleDialect):
             sd = dialect
         else:
-- 
2.43.0


From ed70f192648e5bd8a8728bfa632ef3c82f282816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 07/39] fix: the reader does not modify the dialect it is given

---
 clevercsv/read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index dc55986..eaa8f91 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -53,7 +53,12 @@ class reader:
         elif isinstance(dialect, type) and issubclass(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect())
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From e17c9c36c3a514a793245a8b77e8febb70d6889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 08/39] fix: iterating a reader continues where it was

---
 clevercsv/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index eaa8f91..df8a3a5 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -68,6 +68,8 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
+        if self.parser_gen is not None:
+            return self
         self.parser_gen = Parser(
             self.csvfile,
             delimiter=self._dialect.delimiter,
-- 
2.43.0


From cae07d979614c528589b7779ea6048e4c859df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 09/39] fix: the writer accepts all csv.Dialect classes and
 instances

---
 clevercsv/write.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..65db301 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -61,7 +61,9 @@ class writer:
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
+        elif isinstance(dialect, csv.Dialect):
+            d = dialect
+        elif isinstance(dialect, type) and issubclass(dialect, csv.Dialect):
             d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
-- 
2.43.0


From e5c4778a021073a4f4514058f604e29c554b4fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 10/39] fix: dialects without quote character do not declare
 one to the csv module

---
 clevercsv/dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index c0f9566..ee50c52 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -108,7 +108,7 @@ class SimpleDialect:
         class dialect(csv.Dialect):
             assert self.delimiter is not None
             delimiter = self.delimiter
-            quotechar = '"' if self.quotechar == "" else self.quotechar
+            quotechar = None if self.quotechar == "" else self.quotechar
             escapechar = None if self.escapechar == "" else self.escapechar
             doublequote = True
             quoting = (
-- 
2.43.0


From a2587ac9e12186879648625954226f703a3270f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 11/39] fix: restore the field size limit when detection fails

---
 clevercsv/consistency.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..89917cd 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -118,15 +118,16 @@ class ConsistencyDetector:
         # the best parsing result)
         old_limit = field_size_limit(len(data) + 1)
 
-        scores = self.compute_consistency_scores(data, dialects)
-        best_dialects = ConsistencyDetector.get_best_dialects(scores)
-        result: Optional[SimpleDialect] = None
-        if len(best_dialects) == 1:
-            result = best_dialects[0]
-        else:
-            result = tie_breaker(data, best_dialects)
-
-        field_size_limit(old_limit)
+        try:
+            scores = self.compute_consistency_scores(data, dialects)
+            best_dialects = ConsistencyDetector.get_best_dialects(scores)
+            result: Optional[SimpleDialect] = None
+            if len(best_dialects) == 1:
+                result = best_dialects[0]
+            else:
+                result = tie_breaker(data, best_dialects)
+        finally:
+            field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
-- 
2.43.0


From 67817b7dbaf0fcca0ae31c2a2f7ba2f0760f02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 12/39] fix: method 'normal' does not fall back to the
 consistency measure

---
 clevercsv/detect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..ec3ec1b 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -119,6 +119,9 @@ class Detector:
             if dialect is not None:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
+            if method == DetectionMethod.NORMAL:
+                self.method_ = DetectionMethod.NORMAL
+                return None
 
         self.method_ = DetectionMethod.CONSISTENCY
         consistency_detector = ConsistencyDetector(skip=skip, verbose=verbose)
-- 
2.43.0


From c565aea818378419cfd7ca7d579016fefc646606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 13/39] fix: write_table with transpose does not drop cells of
 ragged tables

---
 clevercsv/wrappers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..4f80726 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -445,14 +445,14 @@ def write_table(
     if not table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
+    list_table = list(map(list, table))
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 2caf75a7b565786cac6ecebac5e70b63dc8eb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 14/39] fix: standardize --transpose does not drop cells of
 ragged files

---
 clevercsv/console/commands/standardize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..6093c39 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,7 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From fa716f60624fb17b2d2e39afc812278cbdc258f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 15/39] fix: standardize --in-place keeps the file mode and
 leaves no temporary file

---
 clevercsv/console/commands/standardize.py | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 6093c39..38871a2 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -254,18 +254,23 @@ class StandardizeCommand(Command):
 
         """
         tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
-        tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
-        self._write_to_stream(path, tmpid, dialect, encoding)
-        tmpid.close()
+        try:
+            with os.fdopen(
+                tmpfd, "w", newline="", encoding=target_encoding
+            ) as tmpid:
+                self._write_to_stream(path, tmpid, dialect, encoding)
 
-        previous_sha1 = sha1sum(path)
-        new_sha1 = sha1sum(tmpfname)
-        if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
-            return 0
+            previous_sha1 = sha1sum(path)
+            new_sha1 = sha1sum(tmpfname)
+            if previous_sha1 == new_sha1:
+                return 0
 
-        shutil.move(tmpfname, path)
-        return 2
+            shutil.copymode(path, tmpfname)
+            shutil.move(tmpfname, path)
+            return 2
+        finally:
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
 
     def _to_stdout(
         self, path: StrPath, dialect: SimpleDialect, encoding: Optional[str]
-- 
2.43.0


From 20e0e4550f7cb37f0f19692b33fd60b1024ee18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 16/39] fix: standardize does not empty a file that is both
 input and output

---
 clevercsv/console/commands/standardize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 38871a2..19aa44c 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -289,6 +289,10 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
+        if os.path.exists(output) and os.path.samefile(path, output):
+            # opening the output for writing would empty the input
+            self._in_place(path, dialect, encoding, target_encoding)
+            return 0
         with open(output, "w", newline="", encoding=target_encoding) as fp:
             self._write_to_stream(path, fp, dialect, encoding)
         return 0
-- 
2.43.0


From a0c26c5f35382ae4e6fc062fbd2adbbae291faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 17/39] fix: escape the values in the generated code

---
 clevercsv/console/commands/_utils.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..38697b4 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import json
+
 from typing import Any
 from typing import List
 from typing import Optional
@@ -20,6 +22,11 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def _literal(val: Any) -> str:
+    """Python source of a string, with double quotes"""
+    return json.dumps(str(val), ensure_ascii=False)
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -27,9 +34,10 @@ def generate_code(
     use_pandas: bool = False,
 ) -> List[str]:
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    d = _literal(dialect.delimiter)
+    q = _literal(dialect.quotechar)
+    e = _literal(dialect.escapechar)
+    f = _literal(filename)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +48,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f'df = clevercsv.read_dataframe({f}, delimiter={d}, '
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = "None" if encoding is None else _literal(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({f}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From 68ac9bfef20db6951e35addeaebc7e7c5d737921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 18/39] fix: an escape character only escapes the character
 after it

---
 clevercsv/potential_dialects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index f8b74e6..60805b8 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -284,6 +284,7 @@ def masked_by_quotechar(
         s = data[i]
         if s == quotechar:
             if escape_next:
+                escape_next = False
                 i += 1
                 continue
             if not in_quotes:
@@ -295,7 +296,9 @@ def masked_by_quotechar(
                     in_quotes = False
         elif s == test_char and not in_quotes:
             return False
-        elif s == escapechar:
+        elif s == escapechar and not escape_next:
             escape_next = True
+        else:
+            escape_next = False
         i += 1
     return True
-- 
2.43.0


From ff4e488fabceb2f84be2ba7927fc425acf272b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 19/39] fix: breaking ties does not depend on the hash seed

---
 clevercsv/break_ties.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..bfdc06f 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -80,19 +80,20 @@ def reduce_pairwise(
             equal_dialects.append((a, b))
 
     # Try to break the ties in these pairs
-    new_dialects = set()
+    # (a dict is used as a set that keeps the order of the dialects)
+    new_dialects = {}
     visited = set()
     for A, B in equal_dialects:
         ans = break_ties_two(data, A, B)
         if ans is not None:
-            new_dialects.add(ans)
+            new_dialects[ans] = True
         visited.add(A)
         visited.add(B)
 
     # and add the dialects that we didn't visit
     for d in dialects:
         if d not in visited:
-            new_dialects.add(d)
+            new_dialects[d] = True
 
     return list(new_dialects)
 
-- 
2.43.0


From 6db83d54d766e223e9c9010f12cc9f405f2c2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 20/39] fix: normal forms see the empty cell after a trailing
 delimiter

---
 clevercsv/normal_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..167a431 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -225,8 +225,7 @@ def split_row(row: str, dialect: SimpleDialect) -> List[str]:
             current_cell += c
         else:
             current_cell += c
-    if current_cell:
-        cells.append(current_cell)
+    cells.append(current_cell)
     return cells
 
 
-- 
2.43.0


From 33a674891035d983fc4e36ea719dfbaf6f303cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 21/39] fix: normal form 3 has no nested quotes

---
 clevercsv/normal_form.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 167a431..4021143 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -302,6 +302,9 @@ def is_form_3(rows: List[str], dialect: SimpleDialect) -> bool:
                 if not is_quoted_cell(cell, dialect.quotechar):
                     # then this form isn't right
                     return False
+                # or there are quotes inside quotes
+                if has_nested_quotes(cell, dialect.quotechar):
+                    return False
             # if it's not quoted
             else:
                 # and it's not elementary
-- 
2.43.0


From bdcc8889f4d621a5063f84a811788841781e5869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 22/39] fix: type detection does not fail on JSON that Python
 does not load

---
 clevercsv/detect_type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..927433b 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -202,7 +202,8 @@ class TypeDetector:
             return False
         try:
             _ = json.loads(cell)
-        except json.JSONDecodeError:
+        except (ValueError, RecursionError):
+            # also raised for very long numbers and very deep nesting
             return False
         return True
 
-- 
2.43.0


From 555e9cad897560531d7f3a64f6e6343c120c8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 23/39] fix: time zone offsets of only hours are recognised

---
 clevercsv/_regexes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clevercsv/_regexes.py b/clevercsv/_regexes.py
index b0d84c2..1bc961f 100644
--- a/clevercsv/_regexes.py
+++ b/clevercsv/_regexes.py
@@ -96,9 +96,7 @@ PATTERN_TIME_HHMM_2: Pattern[str] = regex.compile(
     r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
 )
 
-PATTERN_TIME_HH: Pattern[str] = regex.compile(
-    r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
-)
+PATTERN_TIME_HH: Pattern[str] = regex.compile(r"(0[0-9]|1[0-9]|2[0-3])")
 
 PATTERN_TIME_HMM: Pattern[str] = regex.compile(
     r"([0-9]|1[0-9]|2[0-3]):([0-5][0-9])"
-- 
2.43.0


From 29e3343b8ae5a483c5a606e3ed6ac84a3e670ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 24/39] fix: text after an escaped line end is an ordinary cell

---
 src/cparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cparser.c b/src/cparser.c
index 537174b..0b9f60d 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -352,6 +352,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else {
 				if (parse_add_char(self, u) < 0)
 					return -1;
+				self->state = IN_FIELD;
 			}
 			break;
 		case IN_QUOTED_FIELD:
-- 
2.43.0


From 9d9b8b888f62beb09880f5f98c2d4ea07565a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 25/39] fix: reading from the input of a parser that is in use
 no longer crashes

---
 src/cparser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index 0b9f60d..752c398 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -190,6 +190,12 @@ static int parse_save_field(ParserObj *self, int trailing)
 {
 	int is_quoted = 0;
 
+	if (self->fields == NULL) {
+		PyErr_SetString(_cparserstate_global->error_obj,
+				"iterator has already advanced the parser");
+		return -1;
+	}
+
 	PyObject *field = PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND,
 			(void *) self->field, self->field_len);
 	if (field == NULL) {
@@ -525,6 +531,11 @@ static PyObject *Parser_iternext(ParserObj *self)
 			goto err;
 	} while (self->state != START_RECORD);
 
+	if (self->fields == NULL) {
+		PyErr_SetString(_cparserstate_global->error_obj,
+				"iterator has already advanced the parser");
+		return NULL;
+	}
 	fields = self->fields;
 	self->fields = NULL;
 	return fields;
-- 
2.43.0


From 5168a18cecfd68ddbddcb78a73684f82f21e64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 26/39] fix: standardize --in-place can not lose the file when
 the disk is full

---
 clevercsv/console/commands/standardize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 19aa44c..1d94dc9 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -253,7 +253,12 @@ class StandardizeCommand(Command):
         modified.
 
         """
-        tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
+        # the temporary file is made next to the file it replaces, so that
+        # replacing is a single step that can not fail halfway
+        target = os.path.realpath(path)
+        tmpfd, tmpfname = tempfile.mkstemp(
+            prefix="clevercsv_", suffix=".csv", dir=os.path.dirname(target)
+        )
         try:
             with os.fdopen(
                 tmpfd, "w", newline="", encoding=target_encoding
@@ -266,7 +271,7 @@ class StandardizeCommand(Command):
                 return 0
 
             shutil.copymode(path, tmpfname)
-            shutil.move(tmpfname, path)
+            os.replace(tmpfname, target)
             return 2
         finally:
             if os.path.exists(tmpfname):
-- 
2.43.0


From de7d9693b8cc4918c2643b3db4e67c55be394d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 27/39] fix: has_header of an empty sample is False

---
 clevercsv/detect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index ec3ec1b..9c9f8db 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -152,7 +152,9 @@ class Detector:
 
         rdr = reader(StringIO(sample), dialect)
 
-        header = next(rdr)  # assume first row is header
+        header = next(rdr, None)  # assume first row is header
+        if header is None:
+            return False  # there are no rows at all
 
         columns = len(header)
         columnTypes: Dict[int, Optional[Union[int, type]]] = {}
-- 
2.43.0


From 45be897680de2034b20585e8053a83fdcabc2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 28/39] fix: has_header accepts samples with carriage return
 line endings

---
 clevercsv/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 9c9f8db..60a970b 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -150,7 +150,7 @@ class Detector:
         if dialect is None:
             raise NoDetectionResult
 
-        rdr = reader(StringIO(sample), dialect)
+        rdr = reader(StringIO(sample, newline=""), dialect)
 
         header = next(rdr, None)  # assume first row is header
         if header is None:
-- 
2.43.0


From f294f731987d4fd44c209be778d56cdce8bd01a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 29/39] fix: read_dataframe reads files with a single column

---
 clevercsv/wrappers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 4f80726..a637021 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -334,6 +334,15 @@ def read_dataframe(
     if dialect is None:
         raise NoDetectionResult
 
+    if dialect.delimiter == "":
+        # files with a single column have no delimiter, but pandas needs one
+        candidates = map(chr, range(0x1F, 0x0D, -1))
+        dialect = SimpleDialect(
+            next((c for c in candidates if c not in data), "\x1f"),
+            dialect.quotechar,
+            dialect.escapechar,
+            strict=dialect.strict,
+        )
     csv_dialect = dialect.to_csv_dialect()
 
     # This is used to catch pandas' warnings when a dialect is supplied.
-- 
2.43.0


From f3e9e92b811287a4d69ef46d3439e6dde7d176ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 30/39] fix: generated pandas programs keep the number of
 characters and the encoding asked for

---
 clevercsv/console/commands/_utils.py  | 9 ++++++++-
 clevercsv/console/commands/code.py    | 7 ++++++-
 clevercsv/console/commands/explore.py | 7 ++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 38697b4..1263409 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -32,6 +32,8 @@ def generate_code(
     dialect: SimpleDialect,
     encoding: Optional[str],
     use_pandas: bool = False,
+    num_chars: Optional[int] = None,
+    user_encoding: Optional[str] = None,
 ) -> List[str]:
     assert dialect.quotechar is not None
     d = _literal(dialect.delimiter)
@@ -45,11 +47,16 @@ def generate_code(
         "import clevercsv",
     ]
     if use_pandas:
+        # read_dataframe detects the dialect and the encoding again, so it
+        # needs the options of the user to come to the same result
+        options = "" if num_chars is None else f", num_chars={num_chars}"
+        if user_encoding:
+            options += f", encoding={_literal(user_encoding)}"
         return [
             *base,
             "",
             f'df = clevercsv.read_dataframe({f}, delimiter={d}, '
-            f"quotechar={q}, escapechar={e})",
+            f"quotechar={q}, escapechar={e}{options})",
             "",
         ]
 
diff --git a/clevercsv/console/commands/code.py b/clevercsv/console/commands/code.py
index de88d12..0df302b 100644
--- a/clevercsv/console/commands/code.py
+++ b/clevercsv/console/commands/code.py
@@ -72,7 +72,12 @@ class CodeCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            encoding,
+            use_pandas=self.args.pandas,
+            num_chars=num_chars,
+            user_encoding=self.args.encoding,
         )
         print("\n".join(code_lines))
         return 0
diff --git a/clevercsv/console/commands/explore.py b/clevercsv/console/commands/explore.py
index 3634f02..f2d6b3d 100644
--- a/clevercsv/console/commands/explore.py
+++ b/clevercsv/console/commands/explore.py
@@ -77,7 +77,12 @@ class ExploreCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            encoding,
+            use_pandas=self.args.pandas,
+            num_chars=num_chars,
+            user_encoding=self.args.encoding,
         )
 
         console = code.InteractiveConsole()
-- 
2.43.0


From a731bcf1db8fce2871d04d438de5ce3a0518d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 31/39] fix: flip an empty file in the view command

---
 clevercsv/console/commands/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 60ae57c..9805819 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -81,7 +81,7 @@ class ViewCommand(Command):
             return 1
 
         if self.args.transpose:
-            max_row_length = max(map(len, rows))
+            max_row_length = max(map(len, rows), default=0)
             fixed_rows: List[Sequence[Optional[str]]] = []
             for row in rows:
                 if len(row) == max_row_length:
-- 
2.43.0


From 9e453981162f549ffb7d813b1bf4f21dc3b65b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 32/39] fix: abstraction functions refuse text that is not a
 string

They read an object of any other type as if it were a string, which reads
memory they do not own and can crash.
---
 src/abstraction.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..f907e83 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -60,7 +60,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 		 *quotechar_obj = NULL,
 		 *escapechar_obj = NULL;
 
-	if (!PyArg_ParseTuple(args, "OOOO", &S, &delimiter_obj, &quotechar_obj,
+	if (!PyArg_ParseTuple(args, "UOOO", &S, &delimiter_obj, &quotechar_obj,
 				&escapechar_obj)) {
 		return NULL;
 	}
@@ -153,7 +153,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 
 	// retrieve the string from the function arguments
 	PyObject *S = NULL;
-	if (!PyArg_ParseTuple(args, "O", &S)) {
+	if (!PyArg_ParseTuple(args, "U", &S)) {
 		return NULL;
 	}
 
-- 
2.43.0


From 8e5024fbb71a1b3d61d19dceec14228f9e5a33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 33/39] fix: accept iterators as field names, as the csv module
 does

The writer wrote empty rows after the header and the reader failed.
---
 clevercsv/dict_read_write.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..0a9f856 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -54,6 +54,8 @@ class DictReader(
         *args: Any,
         **kwds: Any,
     ) -> None:
+        if fieldnames is not None and iter(fieldnames) is fieldnames:
+            fieldnames = list(fieldnames)
         self._fieldnames = fieldnames
         self.restkey = restkey
         self.restval = restval
@@ -125,6 +127,8 @@ class DictWriter(Generic[_T]):
         *args: Any,
         **kwds: Any,
     ):
+        if fieldnames is not None and iter(fieldnames) is fieldnames:
+            fieldnames = list(fieldnames)
         self.fieldnames = fieldnames
         self.restval = restval
         if extrasaction.lower() not in ("raise", "ignore"):
-- 
2.43.0


From f92125d20bc0f2c5c5da144ae728020ad86fa294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 34/39] fix: extrasaction means the same in upper case

"RAISE" was accepted but ignored unknown keys; the csv module refuses them.
---
 clevercsv/dict_read_write.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index 0a9f856..34fa21b 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -131,7 +131,8 @@ class DictWriter(Generic[_T]):
             fieldnames = list(fieldnames)
         self.fieldnames = fieldnames
         self.restval = restval
-        if extrasaction.lower() not in ("raise", "ignore"):
+        extrasaction = extrasaction.lower()
+        if extrasaction not in ("raise", "ignore"):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-- 
2.43.0


From e7873c66cf103c6fd437bf8b3124bc08283e894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 35/39] fix: keep doubled quotes in blocks that are not closed

The abstraction had a null character for the second quote.
---
 src/abstraction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index f907e83..287e7a3 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -225,6 +225,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 		}
 		if (i + 1 < len && t == 'Q') {
 			i++;
+			new_S[i] = 'Q';
 		} else {
 			quote_idx_r[quote_idx] = i;
 			quote_idx++;
-- 
2.43.0


From 85912cfca9e3aeb7f812c6221ae91de13fbeaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 36/39] fix: breaking ties does not depend on the order of the
 dialects

---
 clevercsv/break_ties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index bfdc06f..38ac7d1 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -38,6 +38,8 @@ def tie_breaker(
 
 
     """
+    # the order in which the dialects are given should not matter
+    dialects = sorted(dialects)
     if len(dialects) == 2:
         return break_ties_two(data, dialects[0], dialects[1])
     elif len(dialects) == 3:
-- 
2.43.0


From 264a71de5963627fc85eb4f50df64c911f4395f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 37/39] fix: write_table makes no file for an iterator without
 rows

---
 clevercsv/wrappers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index a637021..b3e471e 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -451,10 +451,9 @@ def write_table(
         When the length of the rows is not constant.
 
     """
-    if not table:
-        return
-
     list_table = list(map(list, table))
+    if not list_table:
+        return
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
-- 
2.43.0


From 58c8dccb5b6fac5a2c5f8829e9d1a5e9600f3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 38/39] fix: quotes that were escaped at the start of a cell
 are part of the cell

---
 src/cparser.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 752c398..a4c2592 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -71,6 +71,7 @@ typedef struct {
 	Py_UCS4 *field;
 	Py_ssize_t field_size;
 	Py_ssize_t field_len;
+	int start_escaped; // first character of the field was escaped
 	long field_limit;
 
 	Py_UCS4 delimiter;
@@ -203,7 +204,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip quotes if quoted string
-	if (_quotecond(field, self->field_len, self->quotechar)) {
+	if (!self->start_escaped && _quotecond(field, self->field_len, self->quotechar)) {
 		field = _strstrip(field, 1, 1);
 		if (field == NULL) {
 			return -1;
@@ -212,7 +213,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip partial quotes if trailing at end of file
-	if (trailing && _strstartswith(field, self->quotechar)) {
+	if (trailing && !self->start_escaped && _strstartswith(field, self->quotechar)) {
 		field = _strstrip(field, 1, 0);
 		if (field == NULL) {
 			return -1;
@@ -221,6 +222,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	self->field_len = 0;
+	self->start_escaped = 0;
 	if (self->return_quoted > 0) {
 		PyObject *tuple = PyTuple_New(2);
 		if (tuple == NULL) {
@@ -329,9 +331,12 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			}
 			if (u == '\0')
 				;
-			else
+			else {
+				if (self->field_len == 0)
+					self->start_escaped = 1;
 				if (parse_add_char(self, u) < 0)
 					return -1;
+			}
 			self->state = IN_FIELD;
 			break;
 		case AFTER_ESCAPED_CRNL:
@@ -448,6 +453,7 @@ static int parse_reset(ParserObj *self)
 	if (self->fields == NULL)
 		return -1;
 	self->field_len = 0;
+	self->start_escaped = 0;
 	self->state = START_RECORD;
 	return 0;
 }
-- 
2.43.0


From c817345649cae1f54bb06840c5fbd07d66cf7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 39/39] fix: a reader given quoting=QUOTE_NONE as keyword has
 no quote character

---
 clevercsv/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index df8a3a5..ab0fa82 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -64,6 +64,9 @@ class reader:
         for key, value in fmtparams.items():
             if key in ["delimiter", "quotechar", "escapechar", "strict"]:
                 setattr(sd, key, value)
+        # as for dialect objects, there is no quote character without quoting
+        if fmtparams.get("quoting") == csv.QUOTE_NONE:
+            sd.quotechar = ""
         sd.validate()
         return sd
 
-- 
2.43.0

