From 20cc4afa18dee74493dc6dbf31be05ff84888341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 01/97] fix: read exactly the requested bytes; accept empty
 record payloads

A zero-size record could not be read back (Eof), and a record or field cut
off by the end of the stream was silently delivered short.
---
 src/hwp5/dataio.py       |  6 ++++--
 src/hwp5/recordstream.py | 12 ++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..249ce39 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -54,12 +54,14 @@ class OutOfData(Exception):
 def readn(f, size):
     data = f.read(size)
     datasize = len(data)
-    if datasize == 0:
+    if datasize < size:
         try:
             pos = f.tell()
         except IOError:
             pos = '<UNKNOWN>'
-        raise Eof(pos)
+        if datasize == 0:
+            raise Eof(pos)
+        raise OutOfData(pos)
     return data
 
 
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..504c69a 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -51,14 +51,14 @@ def decode_record_header(f):
     try:
         # TagID, Level, Size
         rechdr = UINT32.read(f)
-        tagid = rechdr & 0x3ff
-        level = (rechdr >> 10) & 0x3ff
-        size = (rechdr >> 20) & 0xfff
-        if size == 0xfff:
-            size = UINT32.read(f)
-        return (tagid, level, size)
     except Eof:
         return None
+    tagid = rechdr & 0x3ff
+    level = (rechdr >> 10) & 0x3ff
+    size = (rechdr >> 20) & 0xfff
+    if size == 0xfff:
+        size = UINT32.read(f)
+    return (tagid, level, size)
 
 
 def encode_record_header(rec):
-- 
2.43.0


From f5885b62221e82dc37957dcaebbcf19e8efa9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 02/97] fix: selecting a tree group past the end yields no
 records

RecordStream.records(treegroup=n) returned None, which made
'hwp5proc records/models --treegroup' fail with a TypeError.
---
 src/hwp5/recordstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 504c69a..d948056 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -160,7 +160,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
             records = islice(records, range[0], range[1])
         elif 'treegroup' in kwargs:
             groups = group_records_by_toplevel(records, group_as_list=True)
-            records = nth(groups, kwargs['treegroup'])
+            records = nth(groups, kwargs['treegroup'], default=[])
         return records
 
     def record(self, idx):
@@ -180,7 +180,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
     def records_treegroup(self, n):
         ''' returns list of records in `n'th top-level tree '''
         groups = self.records_treegrouped()
-        return nth(groups, n)
+        return nth(groups, n, default=[])
 
     def other_formats(self):
         return {'.records': self.records_json().open}
-- 
2.43.0


From 29e12d6a33ccab7ef66647295d50395ec2256aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 03/97] fix: hwp5proc records: read the standard input as
 binary

On Python 3 it was read as text, so records could not be decoded.
---
 src/hwp5/proc/records.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..cf257e4 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -34,9 +34,11 @@ PY2 = sys.version_info.major == 2
 
 def main(args):
     if PY2:
+        stdin_binary = sys.stdin
         stdout_text = sys.stdout
         stdout_binary = sys.stdout
     else:
+        stdin_binary = sys.stdin.buffer
         stdout_text = sys.stdout
         stdout_binary = sys.stdout.buffer
 
@@ -47,7 +49,7 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From 130866184589e4ec87ea0e447f25323d27db9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 04/97] fix: a listing of no records or models is a valid JSON
 array

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..fdc1e35 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From de4c31aa7caee503cbd9bd470e79c35859deba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 05/97] fix: reject items above the level of the first item

They popped the root item, so that an unbalanced event stream (or an
IndexError) came out instead of the 'invalid level' error.
---
 src/hwp5/treeop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hwp5/treeop.py b/src/hwp5/treeop.py
index f093b2f..3baa37f 100644
--- a/src/hwp5/treeop.py
+++ b/src/hwp5/treeop.py
@@ -40,6 +40,9 @@ def prefix_event(level_prefixed_items, root_item=None):
             level = 0
         else:
             level -= baselevel
+        if level < 0:
+            raise Exception('invalid level: %d, %d, %s' %
+                            (level, len(stack) - 1, item))
 
         while level + 1 < len(stack):
             yield ENDEVENT, stack.pop()
@@ -81,6 +84,9 @@ def prefix_ancestors_from_level(level_prefixed_items, root_item=None):
             level = 0
         else:
             level -= baselevel
+        if level < 0:
+            raise Exception('invalid level: %d, %d, %s' %
+                            (level, len(stack) - 1, item))
 
         while level + 1 < len(stack):
             stack.pop()
-- 
2.43.0


From 9fe60c003e533c9bf9cd52af8fc7cb2687d354e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 06/97] fix: report a truncated bit-flags member as a
 ParseError

The error event has no value, so that it ended up as a KeyError.
---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..77dbd87 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -285,7 +285,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if 'flags_type' in item and ev is not ERROREVENT:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From cfd1c32db16e94c3ade10cefbd8a2a11fcb8d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 07/97] fix: relative character size is unsigned (10%-250%)

---
 src/hwp5/binmodel/tagid21_char_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid21_char_shape.py b/src/hwp5/binmodel/tagid21_char_shape.py
index e366b7b..2748865 100644
--- a/src/hwp5/binmodel/tagid21_char_shape.py
+++ b/src/hwp5/binmodel/tagid21_char_shape.py
@@ -76,7 +76,7 @@ class CharShape(RecordModel):
         yield (LanguageStruct('LetterWidthExpansion', UINT8),
                'letter_width_expansion')
         yield LanguageStruct('LetterSpacing', INT8), 'letter_spacing'
-        yield LanguageStruct('RelativeSize', INT8), 'relative_size'
+        yield LanguageStruct('RelativeSize', UINT8), 'relative_size'
         yield LanguageStruct('Position', INT8), 'position'
         yield INT32, 'basesize',
         yield cls.Flags, 'charshapeflags',
-- 
2.43.0


From b8e76954f00ecdea41e24633442023be81223774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 08/97] fix: the access state of binary data is in bits 8-9 of
 its 16-bit flags

---
 src/hwp5/binmodel/tagid18_bin_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid18_bin_data.py b/src/hwp5/binmodel/tagid18_bin_data.py
index 5cd94bf..da17ea8 100644
--- a/src/hwp5/binmodel/tagid18_bin_data.py
+++ b/src/hwp5/binmodel/tagid18_bin_data.py
@@ -64,7 +64,7 @@ class BinData(RecordModel):
     Flags = Flags(UINT16,
                   0, 3, StorageType, 'storage',
                   4, 5, CompressionType, 'compression',
-                  16, 17, AccessState, 'access')
+                  8, 9, AccessState, 'access')
 
     def attributes(cls):
         ''' 표 12 바이너리 데이터 '''
-- 
2.43.0


From 1a776eb0d8ce9ad84acaec12656a5d3a1cc08d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 09/97] fix: know the reserved control characters 0x19-0x1d

---
 src/hwp5/binmodel/controlchar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index a38554e..1306e5b 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -153,6 +153,11 @@ class ControlChar(object):
              0x16: ('BOOKMARK', EXTENDED),
              0x17: ('CTLCHR17', EXTENDED),
              0x18: ('HYPHEN', CHAR),
+             0x19: ('CTLCHR19', CHAR),
+             0x1a: ('CTLCHR1A', CHAR),
+             0x1b: ('CTLCHR1B', CHAR),
+             0x1c: ('CTLCHR1C', CHAR),
+             0x1d: ('CTLCHR1D', CHAR),
              0x1e: ('NONBREAK_SPACE', CHAR),
              0x1f: ('FIXWIDTH_SPACE', CHAR)}
     names = dict((unichr(code), name) for code, (name, kind) in chars.items())
-- 
2.43.0


From b274d58192761778076499198efedf4d05a59f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 10/97] fix: a control cut off by the end of a paragraph text
 is an error

---
 src/hwp5/binmodel/tagid51_para_text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/binmodel/tagid51_para_text.py b/src/hwp5/binmodel/tagid51_para_text.py
index 2d16ec5..46d57bb 100644
--- a/src/hwp5/binmodel/tagid51_para_text.py
+++ b/src/hwp5/binmodel/tagid51_para_text.py
@@ -37,6 +37,7 @@ class ParaTextChunks(with_metaclass(ArrayType, list)):
     read = classmethod(read)
 
     def parse_chunks(bytes):
+        from hwp5.dataio import OutOfData
         from hwp5.dataio import decode_utf16le_with_hypua
         size = len(bytes)
         idx = 0
@@ -46,6 +47,9 @@ class ParaTextChunks(with_metaclass(ArrayType, list)):
                 text = decode_utf16le_with_hypua(bytes[idx:ctrlpos])
                 yield (idx // 2, ctrlpos // 2), text
             if ctrlpos < ctrlpos_end:
+                if ctrlpos_end > size:
+                    # the control is cut off by the end of the payload
+                    raise OutOfData(size)
                 cch = ControlChar.decode(bytes[ctrlpos:ctrlpos_end])
                 yield (ctrlpos // 2, ctrlpos_end // 2), cch
             idx = ctrlpos_end
-- 
2.43.0


From ccf8732dbafddbe68d5bda7a3ec954b1c6eefe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 11/97] fix: decode strings with unpaired surrogates

---
 src/hwp5/dataio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 249ce39..f2ec09d 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -179,7 +179,8 @@ def decode_utf16le_with_hypua(bytes):
     :param bytes: utf-16le encoded bytes with Hanyang-PUA codes
     :returns: a unicode string with Hangul Jamo codes
     '''
-    return bytes.decode('utf-16le')
+    # unpaired surrogates are found in the wild: keep them as they are
+    return bytes.decode('utf-16le', 'surrogatepass')
 
 
 class BitGroupDescriptor(object):
-- 
2.43.0


From 3c3086b6824d622c8a4067576490f1a55e85fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 12/97] fix: positions of shapes and lines count UTF-16 code
 units

---
 src/hwp5/xmlmodel.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..98734dd 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -100,6 +100,22 @@ def make_ranged_shapes(shapes):
     yield (item[0], 0x7fffffff), item[1]
 
 
+def split_text(text, units):
+    ''' split a text after the given number of UTF-16 code units
+
+    Surrogate pairs are not divided but belong to the first part as a whole.
+
+    :returns: (code units of the first part, first part, second part)
+    '''
+    data = text.encode('utf-16le', 'surrogatepass')
+    pair = bytearray(data[2 * units - 2:2 * units + 2])
+    if 0xd8 <= pair[1] <= 0xdb and 0xdc <= pair[3] <= 0xdf:
+        units += 1
+    return (units,
+            data[:2 * units].decode('utf-16le', 'surrogatepass'),
+            data[2 * units:].decode('utf-16le', 'surrogatepass'))
+
+
 def split_and_shape(chunks, ranged_shapes):
     try:
         (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
@@ -124,16 +140,16 @@ def split_and_shape(chunks, ranged_shapes):
             # case 2: chunk has left intersection
             #         vvvv
             #         ..----
-            if shape_end < chunk_end:           # (2)
-                prev = ((chunk_start, shape_end),
-                        chunk[:shape_end - chunk_start])
-                nexT = ((shape_end, chunk_end),
-                        chunk[shape_end - chunk_start:])
-                (chunk_start, chunk_end), chunk = prev
-            else:
-                nexT = None
+            nexT = None
+            # controls take several code units but are not divisible
+            if shape_end < chunk_end and isinstance(chunk, basestring):
+                units, head, tail = split_text(chunk, shape_end - chunk_start)
+                if tail:
+                    split_pos = chunk_start + units
+                    nexT = (split_pos, chunk_end), tail
+                    (chunk_start, chunk_end), chunk = ((chunk_start,
+                                                        split_pos), head)
 
-            assert chunk_end <= shape_end       # by (2)
             yield (chunk_start, chunk_end), (shape, chunk_attr), chunk
 
             if nexT is not None:
-- 
2.43.0


From 61adc0aa0653707c55ff97158fbc782b25fa7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 13/97] fix: a paragraph with an empty list of lines is like
 one without lines

---
 src/hwp5/xmlmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 98734dd..2eeb4b7 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -222,7 +222,7 @@ def merge_paragraph_text_charshape_lineseg(paratext, paracharshape,
     charshapes = paracharshape[1]['charshapes']
     shaped_chunks = split_and_shape(chunks, make_ranged_shapes(charshapes))
 
-    if paralineseg:
+    if paralineseg and paralineseg[1]['linesegs']:
         paralineseg_content = paralineseg[1]
         paralineseg_context = paralineseg[2]
     else:
-- 
2.43.0


From b3309c0d9a69fab473673b9ae8c5a445d67fb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 14/97] fix: a field does not extend across the boundaries of a
 nested control

---
 src/hwp5/xmlmodel.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 2eeb4b7..7946a28 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -412,8 +412,19 @@ def make_paragraphs_children_of_listheader(event_prefixed_mac,
 
 def match_field_start_end(event_prefixed_mac):
     stack = []
+    outer_stacks = []  # stacks of the texts enclosing the current one
     for event, item in event_prefixed_mac:
         (model, attributes, context) = item
+        if issubclass(model, Control) and not issubclass(model, Field):
+            # fields do not extend across the boundaries of a control
+            if event is STARTEVENT:
+                outer_stacks.append(stack)
+                stack = []
+            else:
+                stack = outer_stacks.pop()
+        elif issubclass(model, ListHeader) and event is STARTEVENT:
+            stack = []
+
         if issubclass(model, Field):
             for x in mfse_field(event, stack, item):
                 yield x
-- 
2.43.0


From a7a4669b55210023927db187c993ba2ab7c5a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 15/97] fix: the end mark of a field of unknown kind does not
 close another field

---
 src/hwp5/xmlmodel.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 7946a28..1b70ae5 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -422,6 +422,8 @@ def match_field_start_end(event_prefixed_mac):
                 stack = []
             else:
                 stack = outer_stacks.pop()
+                if model is Control and attributes['chid'][:1] == '%':
+                    stack.append(None)  # a field of unknown kind
         elif issubclass(model, ListHeader) and event is STARTEVENT:
             stack = []
 
@@ -450,19 +452,23 @@ def mfse_lineseg(event, stack, item):
     if event is ENDEVENT:
         # fields still not closed; temporarily close them
         for field_item in reversed(stack):
-            yield ENDEVENT, field_item
+            if field_item is not None:
+                yield ENDEVENT, field_item
         yield event, item
     elif event is STARTEVENT:
         yield event, item
         # fields temporarily closed; open them again
         for field_item in stack:
-            yield STARTEVENT, field_item
+            if field_item is not None:
+                yield STARTEVENT, field_item
 
 
 def mfse_field_end(event, stack, item):
     if event is ENDEVENT:
         if len(stack) > 0:
-            yield event, stack.pop()
+            field_item = stack.pop()
+            if field_item is not None:
+                yield event, field_item
         else:
             logger.warning('unmatched field end')
 
-- 
2.43.0


From 6e83cef7ed57040f230069e7df25449b519c7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 16/97] fix: keep the contents of a section without section
 definition

---
 src/hwp5/xmlmodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 1b70ae5..a457148 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -291,7 +291,11 @@ def wrap_section(event_prefixed_mac, sect_id=None):
                 started = True
             else:
                 starting_buffer.append((event, item))
-    yield ENDEVENT, sectiondef
+    if started:
+        yield ENDEVENT, sectiondef
+    else:
+        for evented_item in starting_buffer:
+            yield evented_item
 
 
 class ColumnSet:
@@ -312,7 +316,7 @@ def wrap_columns(event_prefixed_mac):
                 split = Paragraph.SplitFlags(split)
 
                 if split.new_columnsdef:
-                    if stack[-1][0] is ColumnSet:
+                    if stack and stack[-1][0] is ColumnSet:
                         yield ENDEVENT, stack.pop()
 
                     columns = (ColumnSet, {}, {})
-- 
2.43.0


From fc9e2200b9b0fd158ae7b40f9da61e0e23d87276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 17/97] fix: table rows without cells are empty rows, and rows
 cut short are closed

---
 src/hwp5/xmlmodel.py        | 50 ++++++++++++++++++-------------------
 src/hwp5/xsl/odt/common.xsl |  3 +++
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index a457148..08d2014 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -481,10 +481,6 @@ class TableRow:
     pass
 
 
-ROW_OPEN = 1
-ROW_CLOSE = 2
-
-
 def restructure_tablebody(event_prefixed_mac):
     ''' Group table columns in each rows and wrap them with TableRow. '''
     stack = []
@@ -503,34 +499,38 @@ def restructure_tablebody(event_prefixed_mac):
 
 def rstbody_tablebody(event, stack, item, attributes, context):
     if event is STARTEVENT:
-        rowcols = deque()
-        for cols in attributes.pop('rowcols'):
-            if cols == 1:
-                rowcols.append(ROW_OPEN | ROW_CLOSE)
-            else:
-                rowcols.append(ROW_OPEN)
-                for i in range(0, cols - 2):
-                    rowcols.append(0)
-                rowcols.append(ROW_CLOSE)
-        stack.append((context, rowcols))
+        rowcols = deque(attributes.pop('rowcols'))
+        stack.append(dict(row=(TableRow, dict(), dict(context)),
+                          rowcols=rowcols,
+                          # number of cells left in the current row
+                          cells=0))
         yield event, item
     else:
+        table = stack.pop()
+        row = table['row']
+        if table['cells'] > 0:
+            yield ENDEVENT, row
+        for cols in table['rowcols']:
+            yield STARTEVENT, row
+            yield ENDEVENT, row
         yield event, item
-        stack.pop()
 
 
 def rstbody_tablecell(event, stack, item):
-    table_context, rowcols = stack[-1]
-    row_context = dict(table_context)
+    table = stack[-1]
+    row = table['row']
     if event is STARTEVENT:
-        how = rowcols[0]
-        if how & ROW_OPEN:
-            yield STARTEVENT, (TableRow, dict(), row_context)
-    yield event, item
-    if event is ENDEVENT:
-        how = rowcols.popleft()
-        if how & ROW_CLOSE:
-            yield ENDEVENT, (TableRow, dict(), row_context)
+        while table['cells'] == 0:
+            table['cells'] = table['rowcols'].popleft()
+            yield STARTEVENT, row
+            if table['cells'] == 0:
+                yield ENDEVENT, row
+        yield event, item
+    else:
+        yield event, item
+        table['cells'] -= 1
+        if table['cells'] == 0:
+            yield ENDEVENT, row
 
 
 def tokenize_text_by_lang(event_prefixed_mac):
diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2e4fe0c..1581919 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -941,6 +941,9 @@
               <xsl:apply-templates />
             </table:table-cell>
           </xsl:for-each>
+          <xsl:if test="not(TableCell)">
+            <table:covered-table-cell/>
+          </xsl:if>
         </table:table-row>
       </xsl:for-each>
     </xsl:element>
-- 
2.43.0


From a83529ff4256b99957855a6cc638640e6bb7ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 18/97] fix: leave out every character XML can not represent

---
 src/hwp5/xmlformat.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..12baee7 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -243,6 +244,22 @@ def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
         yield textchunk.encode(encoding)
 
 
+def remove_illegal_xmlchars(text):
+    ''' remove characters which XML can not represent
+
+    See http://www.w3.org/TR/xml/#NT-Char
+    '''
+    return RE_ILLEGAL_XMLCHARS.sub('', text)
+
+
+RE_ILLEGAL_XMLCHARS = re.compile(
+    '[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]'
+    # unpaired surrogates
+    '|[\ud800-\udbff](?![\udc00-\udfff])'
+    '|(?<![\ud800-\udbff])[\udc00-\udfff]'
+)
+
+
 def xmlevents_to_textchunks(xmlevents):
     entities = {'\r': '&#13;',
                 '\n': '&#10;',
@@ -256,12 +273,12 @@ def xmlevents_to_textchunks(xmlevents):
                 yield n
                 yield '='
                 v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
+                v = remove_illegal_xmlchars(v)
                 yield v
             yield '>'
         elif event is Text:
             text = escape(item)
-            text = text.replace('\x00', '')
+            text = remove_illegal_xmlchars(text)
             yield text
         elif event is ENDEVENT:
             yield '</'
-- 
2.43.0


From 8d3231ba8cf6084cb46c4b2fa7adf72530cd9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 19/97] fix: hwp5proc xml --format flat on python 3, with
 undefined values

---
 src/hwp5/xmldump_flat.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..f24a64a 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,16 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
@@ -199,7 +205,7 @@ def xmlevents_from_modelevents(model_events):  # noqa
                         if isinstance(bitfield_type, EnumType):
                             atrs = {
                                 'type': bitfield_type.__name__,
-                                'value': value.name
+                                'value': value.name or unicode(int(value))
                             }
                             yield STARTEVENT, ('enum', atrs)
                             yield ENDEVENT, 'enum'
-- 
2.43.0


From 85fb6bbe5db38ee8206e96fe0b1f4d2575b72bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 20/97] fix: close the columns of a section without section
 definition

---
 src/hwp5/xmlmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 08d2014..93684f2 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -334,6 +334,9 @@ def wrap_columns(event_prefixed_mac):
 
         yield event, item
 
+    while stack:
+        yield ENDEVENT, stack.pop()
+
 
 def make_extended_controls_inline(event_prefixed_mac, stack=None):
     ''' inline extended-controls into paragraph texts '''
-- 
2.43.0


From f0f072d31b9ca17c042645b50374c01810d4312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 21/97] fix: XML in encodings with a signature or without some
 characters

---
 src/hwp5/xmlmodel.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 93684f2..792a6c5 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -24,6 +24,7 @@ from itertools import chain
 from pprint import pformat
 from tempfile import TemporaryFile
 import base64
+import codecs
 import logging
 import sys
 
@@ -56,7 +57,7 @@ from .treeop import build_subtree
 from .treeop import tree_events
 from .treeop import tree_events_multi
 from .xmlformat import startelement
-from .xmlformat import xmlevents_to_bytechunks
+from .xmlformat import xmlevents_to_textchunks
 
 
 PY3 = sys.version_info.major == 3
@@ -627,15 +628,14 @@ class XmlEvents(object):
 
     def bytechunks(self, xml_declaration=True, **kwargs):
         encoding = kwargs.get('xml_encoding', 'utf-8')
+        encoder = codecs.getincrementalencoder(encoding)('xmlcharrefreplace')
         if xml_declaration:
-            yield '<?xml version="1.0" encoding="{}"?>\n'.format(
-                encoding
-            ).encode(
-                encoding
+            yield encoder.encode(
+                '<?xml version="1.0" encoding="{}"?>\n'.format(encoding)
             )
-        bytechunks = xmlevents_to_bytechunks(self, encoding)
-        for chunk in bytechunks:
-            yield chunk
+        for chunk in xmlevents_to_textchunks(self):
+            yield encoder.encode(chunk)
+        yield encoder.encode('', final=True)
 
     def dump(self, outfile, **kwargs):
         bytechunks = self.bytechunks(**kwargs)
-- 
2.43.0


From bc8c00680e64c66ba9e90b8c106c6e01e84d47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 22/97] fix: summary information strings with unpaired
 surrogates

---
 src/hwp5/msoleprops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..1a531dc 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -69,7 +69,8 @@ class VT_LPWSTR(object):
     def read_value(cls, context, f):
         length = read_type(UINT32, context, f)
         data = f.read(length * 2)
-        return data.decode('utf-16le')[:-1]  # remove null character
+        data = data.decode('utf-16le', 'surrogatepass')
+        return data[:-1]  # remove null character
 
 
 @PropertyType(code=0x0040)
-- 
2.43.0


From 8d6d86954069bc646eace92d9a1a6c034d9b7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 23/97] fix: summary information strings without null
 terminator keep their last character

---
 src/hwp5/msoleprops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 1a531dc..6efb241 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -70,7 +70,9 @@ class VT_LPWSTR(object):
         length = read_type(UINT32, context, f)
         data = f.read(length * 2)
         data = data.decode('utf-16le', 'surrogatepass')
-        return data[:-1]  # remove null character
+        if data.endswith('\0'):
+            data = data[:-1]  # remove null character
+        return data
 
 
 @PropertyType(code=0x0040)
-- 
2.43.0


From 4a66c1980bff288d43c0a8bbc3cc8bd5be986d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 24/97] fix: times of summary information are exact, and late
 times do not crash it

---
 src/hwp5/msoleprops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 6efb241..f98a2c6 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -94,13 +94,17 @@ class FILETIME(object):
         self.value = value
 
     def __str__(self):
-        return str(self.datetime)
+        try:
+            return str(self.datetime)
+        except OverflowError:
+            # later than datetime can represent
+            return '0x{:016x}'.format(self.value)
 
     @property
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
-- 
2.43.0


From cf1ba054c3526676129aa01965ddec8a8e9390e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 25/97] fix: summary information without dictionary

---
 src/hwp5/msoleprops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index f98a2c6..dcd7713 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -601,7 +601,10 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                if dictionary is not None:
+                    displayName = dictionary.get(propDesc.id, None)
+                else:
+                    displayName = None
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
-- 
2.43.0


From 6ebb703ff684bdfe993805b199fc41a5d1311516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 26/97] fix: properties absent from summary information are not
 an error

---
 src/hwp5/filestructure.py | 26 +++++++++++++-------------
 src/hwp5/msoleprops.py    |  6 ++++++
 src/hwp5/summaryinfo.py   | 33 ++++++++++++++++++---------------
 3 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..1e47653 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -447,67 +447,67 @@ class HwpSummaryInfo(VersionSensitiveItem):
     @property
     def title(self):
         from .msoleprops import PIDSI_TITLE
-        return self.propertySet[PIDSI_TITLE]
+        return self.propertySet.get(PIDSI_TITLE)
 
     @property
     def subject(self):
         from .msoleprops import PIDSI_SUBJECT
-        return self.propertySet[PIDSI_SUBJECT]
+        return self.propertySet.get(PIDSI_SUBJECT)
 
     @property
     def author(self):
         from .msoleprops import PIDSI_AUTHOR
-        return self.propertySet[PIDSI_AUTHOR]
+        return self.propertySet.get(PIDSI_AUTHOR)
 
     @property
     def keywords(self):
         from .msoleprops import PIDSI_KEYWORDS
-        return self.propertySet[PIDSI_KEYWORDS]
+        return self.propertySet.get(PIDSI_KEYWORDS)
 
     @property
     def comments(self):
         from .msoleprops import PIDSI_COMMENTS
-        return self.propertySet[PIDSI_COMMENTS]
+        return self.propertySet.get(PIDSI_COMMENTS)
 
     @property
     def lastSavedBy(self):
         from .msoleprops import PIDSI_LASTAUTHOR
-        return self.propertySet[PIDSI_LASTAUTHOR]
+        return self.propertySet.get(PIDSI_LASTAUTHOR)
 
     @property
     def revisionNumber(self):
         from .msoleprops import PIDSI_REVNUMBER
-        return self.propertySet[PIDSI_REVNUMBER]
+        return self.propertySet.get(PIDSI_REVNUMBER)
 
     @property
     def lastPrintedTime(self):
         from .msoleprops import PIDSI_LASTPRINTED
-        return self.propertySet[PIDSI_LASTPRINTED]
+        return self.propertySet.get(PIDSI_LASTPRINTED)
 
     @property
     def createdTime(self):
         from .msoleprops import PIDSI_CREATE_DTM
-        return self.propertySet[PIDSI_CREATE_DTM]
+        return self.propertySet.get(PIDSI_CREATE_DTM)
 
     @property
     def lastSavedTime(self):
         from .msoleprops import PIDSI_LASTSAVE_DTM
-        return self.propertySet[PIDSI_LASTSAVE_DTM]
+        return self.propertySet.get(PIDSI_LASTSAVE_DTM)
 
     @property
     def numberOfPages(self):
         from .msoleprops import PIDSI_PAGECOUNT
-        return self.propertySet[PIDSI_PAGECOUNT]
+        return self.propertySet.get(PIDSI_PAGECOUNT)
 
     @property
     def dateString(self):
         from .summaryinfo import HWPPIDSI_DATE_STR
-        return self.propertySet[HWPPIDSI_DATE_STR]
+        return self.propertySet.get(HWPPIDSI_DATE_STR)
 
     @property
     def numberOfParagraphs(self):
         from .summaryinfo import HWPPIDSI_PARACOUNT
-        return self.propertySet[HWPPIDSI_PARACOUNT]
+        return self.propertySet.get(HWPPIDSI_PARACOUNT)
 
     @property
     def plaintext_lines(self):
diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index dcd7713..32640df 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -415,6 +415,12 @@ class PropertySet(object):
                 return property.value
         raise KeyError(propertyIdentifier)
 
+    def get(self, propertyIdentifier, defvalue=None):
+        try:
+            return self[propertyIdentifier]
+        except KeyError:
+            return defvalue
+
 
 class PropertySetHeader(Struct):
 
diff --git a/src/hwp5/summaryinfo.py b/src/hwp5/summaryinfo.py
index f9b9fbc..f318a71 100644
--- a/src/hwp5/summaryinfo.py
+++ b/src/hwp5/summaryinfo.py
@@ -51,18 +51,21 @@ HWP_PROPERTIES = RESERVED_PROPERTIES + SUMMARY_INFORMATION_PROPERTIES + (
 class HwpSummaryInfoTextFormatter(object):
 
     def formatTextLines(self, hwpsummaryinfo):
-        yield 'Title: {}'.format(hwpsummaryinfo.title)
-        yield 'Subject: {}'.format(hwpsummaryinfo.subject)
-        yield 'Author: {}'.format(hwpsummaryinfo.author)
-        yield 'Keywords: {}'.format(hwpsummaryinfo.keywords)
-        yield 'Comments: {}'.format(hwpsummaryinfo.comments)
-        yield 'Last saved by: {}'.format(hwpsummaryinfo.lastSavedBy)
-        yield 'Revision Number: {}'.format(hwpsummaryinfo.revisionNumber)
-        yield 'Last Printed at: {}'.format(hwpsummaryinfo.lastPrintedTime)
-        yield 'Created at: {}'.format(hwpsummaryinfo.createdTime)
-        yield 'Last saved at: {}'.format(hwpsummaryinfo.lastSavedTime)
-        yield 'Number of pages: {}'.format(hwpsummaryinfo.numberOfPages)
-        yield 'Date: {}'.format(hwpsummaryinfo.dateString)
-        yield 'Number of paragraphs: {}'.format(
-            hwpsummaryinfo.numberOfParagraphs
-        )
+        for label, value in self.getLabelsAndValues(hwpsummaryinfo):
+            # a property which is not stored has no value
+            yield '{}: {}'.format(label, '' if value is None else value)
+
+    def getLabelsAndValues(self, hwpsummaryinfo):
+        yield 'Title', hwpsummaryinfo.title
+        yield 'Subject', hwpsummaryinfo.subject
+        yield 'Author', hwpsummaryinfo.author
+        yield 'Keywords', hwpsummaryinfo.keywords
+        yield 'Comments', hwpsummaryinfo.comments
+        yield 'Last saved by', hwpsummaryinfo.lastSavedBy
+        yield 'Revision Number', hwpsummaryinfo.revisionNumber
+        yield 'Last Printed at', hwpsummaryinfo.lastPrintedTime
+        yield 'Created at', hwpsummaryinfo.createdTime
+        yield 'Last saved at', hwpsummaryinfo.lastSavedTime
+        yield 'Number of pages', hwpsummaryinfo.numberOfPages
+        yield 'Date', hwpsummaryinfo.dateString
+        yield 'Number of paragraphs', hwpsummaryinfo.numberOfParagraphs
-- 
2.43.0


From 940b2d09bf27582b642a64308bc1fd162cf0da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 27/97] fix: print summary information strings with unpaired
 surrogates

---
 src/hwp5/filestructure.py    | 2 +-
 src/hwp5/proc/summaryinfo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 1e47653..1a0e178 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -519,7 +519,7 @@ class HwpSummaryInfo(VersionSensitiveItem):
     def open_text(self):
         out = BytesIO()
         for line in self.plaintext_lines:
-            line = line.encode('utf-8')
+            line = line.encode('utf-8', 'backslashreplace')
             out.write(line + b'\n')
         out.seek(0)
         return out
diff --git a/src/hwp5/proc/summaryinfo.py b/src/hwp5/proc/summaryinfo.py
index 08b9afa..50b9b28 100644
--- a/src/hwp5/proc/summaryinfo.py
+++ b/src/hwp5/proc/summaryinfo.py
@@ -38,7 +38,7 @@ def main(args):
     hwpfile = Hwp5File(args.hwp5file)
     try:
         for textline in formatter.formatTextLines(hwpfile.summaryinfo):
-            line = textline.encode('utf-8')
+            line = textline.encode('utf-8', 'backslashreplace')
             output_fp.write(line)
             output_fp.write(b'\n')
     finally:
-- 
2.43.0


From ec92f84adee3a298a0ead644835236530e5d4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 28/97] fix: methods with a cached property stay callable after
 the property was read

---
 src/hwp5/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index fdc1e35..96b158f 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -47,18 +47,20 @@ class cached_property(object):
         self.func = func
         self.__name__ = func.__name__
         self.__doc__ = func.__doc__
+        # func itself may be a method of the object: do not hide it
+        self.key = 'cached ' + func.__name__
 
     def __get__(self, obj, type=None):
         if obj is None:
             return self
-        value = obj.__dict__.get(self.__name__, NIL)
+        value = obj.__dict__.get(self.key, NIL)
         if value is NIL:
             value = self.func(obj)
-            obj.__dict__[self.__name__] = value
+            obj.__dict__[self.key] = value
         return value
 
     def __set__(self, obj, value):
-        obj.__dict__[self.__name__] = value
+        obj.__dict__[self.key] = value
 
 
 def generate_json_array(tokens):
-- 
2.43.0


From e3bc4a91467178b0a30e6a9c68106931a2b51f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 29/97] fix: sized reads of generated streams return no more
 than the size

---
 src/hwp5/utils.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 96b158f..cf5cfd0 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -163,23 +163,21 @@ class GeneratorReader(object):
     '''
 
     def __init__(self, gen):
-        self.gen = gen
+        self.gen = iter(gen)
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -199,25 +197,22 @@ class GeneratorTextReader(object):
     '''
 
     def __init__(self, gen):
-        self.gen = gen
+        self.gen = iter(gen)
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From 33de0d0799f05693c95dd9970c508079e43cc201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 30/97] fix: sized reads of raw zlib streams are short only at
 the end

---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..521f1cb 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -127,7 +127,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From 3a7713f23ce4c5728716b730130a7864586d3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 31/97] fix: raw zlib encoder strips the header after reset,
 too

---
 src/hwp5/zlib_raw_codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 521f1cb..ec8c5a9 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -64,6 +64,7 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
 
     def reset(self):
         self.compressobj = zlib.compressobj()
+        self.initial = True
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From db4a8b996bb929f7e981dae2e7ac03bdcf93f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 32/97] fix: decompress sources which deliver less than asked
 for

---
 src/hwp5/compressed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/compressed.py b/src/hwp5/compressed.py
index 033bfed..d27601d 100644
--- a/src/hwp5/compressed.py
+++ b/src/hwp5/compressed.py
@@ -48,7 +48,7 @@ def decompress_gen(source, bufsize=4096):
     exausted = False
     while not exausted:
         input = source.read(bufsize)
-        if len(input) < bufsize:
+        if len(input) == 0:
             exausted = True
         yield dec.decode(input, exausted)
 
-- 
2.43.0


From 002ad1f6e74bd210c5535cccedeb9fd9d8c190dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 33/97] fix: refuse streams without distribution data in every
 operation

---
 src/hwp5/distdoc.py         |  8 ++++++--
 src/hwp5/filestructure.py   |  4 ++--
 src/hwp5/proc/diststream.py | 10 +++++-----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/hwp5/distdoc.py b/src/hwp5/distdoc.py
index c1fc7d9..f8bc418 100644
--- a/src/hwp5/distdoc.py
+++ b/src/hwp5/distdoc.py
@@ -34,11 +34,15 @@ from .tagids import HWPTAG_DISTRIBUTE_DOC_DATA
 logger = logging.getLogger(__name__)
 
 
-def decode(stream):
+def read_distdoc_data(stream):
     distdoc_data_record = read_record(stream, 0)
     if distdoc_data_record['tagid'] != HWPTAG_DISTRIBUTE_DOC_DATA:
         raise IOError('the first record is not an HWPTAG_DISTRIBUTE_DOC_DATA')
-    distdoc_data = distdoc_data_record['payload']
+    return distdoc_data_record['payload']
+
+
+def decode(stream):
+    distdoc_data = read_distdoc_data(stream)
     key = decode_head_to_key(distdoc_data)
     tail = stream.read()
     decrypted = decrypt_tail(key, tail)
diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 1a0e178..dc110cc 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -226,8 +226,8 @@ class Hwp5DistDocStream(VersionSensitiveItem):
         return GeneratorTextReader(iter([json]))
 
     def head(self):
-        record = self.head_record()
-        return record['payload']
+        from .distdoc import read_distdoc_data
+        return read_distdoc_data(self.wrapped.open())
 
     def head_stream(self):
         return BytesIO(self.head())
diff --git a/src/hwp5/proc/diststream.py b/src/hwp5/proc/diststream.py
index 530af36..ba36574 100644
--- a/src/hwp5/proc/diststream.py
+++ b/src/hwp5/proc/diststream.py
@@ -54,7 +54,7 @@ import sys
 from ..distdoc import decode
 from ..distdoc import decode_head_to_sha1
 from ..distdoc import decode_head_to_key
-from ..recordstream import read_record
+from ..distdoc import read_distdoc_data
 
 
 PY2 = sys.version_info.major == 2
@@ -70,15 +70,15 @@ def main(args):
         output_fp = sys.stdout.buffer
 
     if args.sha1:
-        head = read_record(input_fp, 0)
-        sha1ucs16le = decode_head_to_sha1(head['payload'])
+        head = read_distdoc_data(input_fp)
+        sha1ucs16le = decode_head_to_sha1(head)
         sha1 = a2b_hex(sha1ucs16le.decode('utf-16le'))
         if not args.raw:
             sha1 = b2a_hex(sha1)
         output_fp.write(sha1)
     elif args.key:
-        head = read_record(input_fp, 0)
-        key = decode_head_to_key(head['payload'])
+        head = read_distdoc_data(input_fp)
+        key = decode_head_to_key(head)
         if not args.raw:
             key = b2a_hex(key)
         output_fp.write(key)
-- 
2.43.0


From f38d080be20354f69e1acaf846a79d18c25961cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 34/97] fix: report failure of openssl

---
 src/hwp5/plat/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a23c299..77082d3 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -178,10 +178,13 @@ def get_aes128ecb_decrypt_openssl():
         try:
             p = Popen(args, stdout=subprocess.PIPE)
             try:
-                return p.stdout.read()
+                decrypted = p.stdout.read()
             finally:
                 p.wait()
                 p.stdout.close()
+            if p.returncode != 0:
+                raise CalledProcessError(p.returncode, 'openssl')
+            return decrypted
         finally:
             os.unlink(name)
 
-- 
2.43.0


From f6e6da26943660146d3ac54714aff42d169a5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 35/97] fix: virtual streams can be opened repeatedly, and are
 parsed only when opened

---
 src/hwp5/binmodel/__init__.py |  5 ++++-
 src/hwp5/recordstream.py      |  5 ++++-
 src/hwp5/xmlmodel.py          | 10 ++++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..ff1d060 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -466,7 +466,10 @@ class ModelStream(recordstream.RecordStream):
 
     def other_formats(self):
         d = super(ModelStream, self).other_formats()
-        d['.models'] = self.models_json().open
+        def open_models(**kwargs):
+            # parse when (and whenever) it is opened
+            return self.models_json().open(**kwargs)
+        d['.models'] = open_models
         return d
 
     def parse_model_events(self):
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index d948056..31b1190 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -183,7 +183,10 @@ class RecordStream(filestructure.VersionSensitiveItem):
         return nth(groups, n, default=[])
 
     def other_formats(self):
-        return {'.records': self.records_json().open}
+        def open_records(**kwargs):
+            # parse when (and whenever) it is opened
+            return self.records_json().open(**kwargs)
+        return {'.records': open_records}
 
 
 class Sections(filestructure.Sections):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 792a6c5..8c7978f 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -673,7 +673,10 @@ class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
     def other_formats(self):
         d = super(ModelEventStream, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        def open_xml(**kwargs):
+            # parse when (and whenever) it is opened
+            return self.xmlevents().open(**kwargs)
+        d['.xml'] = open_xml
         return d
 
 
@@ -820,7 +823,10 @@ class Sections(binmodel.Sections, XmlEventsMixin):
 
     def other_formats(self):
         d = super(Sections, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        def open_xml(**kwargs):
+            # parse when (and whenever) it is opened
+            return self.xmlevents().open(**kwargs)
+        d['.xml'] = open_xml
         return d
 
 
-- 
2.43.0


From d095b91cc58dfbf73a8defa5f43d34f4ea998674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 36/97] fix: list streams in nested storages

---
 src/hwp5/plat/olefileio.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..f5aea90 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -160,7 +160,12 @@ def olefile_listdir(olefile, path):
     if olefile.get_type(path) != 1:
         raise IOError('%s not a storage' % path)
     path_segments = path.split('/')
+    depth = len(path_segments)
+    yielded = []
     for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+        if len(stream) > depth and stream[:depth] == path_segments:
+            item = stream[depth]
+            if item in yielded:
+                continue
+            yielded.append(item)
+            yield item
-- 
2.43.0


From 7f31412e55fd2d723969876dfd8594d3056d5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 37/97] fix: list a stream named like a virtual stream once

---
 src/hwp5/storage/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..f07391b 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -71,7 +71,8 @@ class ItemConversionStorage(StorageWrapper):
 class ExtraItemStorage(StorageWrapper):
 
     def __iter__(self):
-        for name in self.wrapped:
+        names = list(self.wrapped)
+        for name in names:
             yield name
 
             item = self.wrapped[name]
@@ -79,7 +80,8 @@ class ExtraItemStorage(StorageWrapper):
                 other_formats = item.other_formats()
                 if other_formats:
                     for ext in other_formats:
-                        yield name + ext
+                        if name + ext not in names:
+                            yield name + ext
 
     def __getitem__(self, name):
         try:
-- 
2.43.0


From b4713579e254f4fed6d59d6fd1ca2f9baa6cc7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 38/97] fix: streams named like Section01 or Section1_0 are not
 sections

---
 src/hwp5/filestructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index dc110cc..633a99c 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -355,7 +355,8 @@ class Sections(ItemConversionStorage):
                     except:
                         pass
                     else:
-                        yield idx
+                        if name == 'Section%d' % idx:
+                            yield idx
         indexes = list(gen())
         indexes.sort()
         return indexes
-- 
2.43.0


From fab89e26421748c9c94e0d5f46d02835ab8611a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 39/97] fix: unpack stays inside the output directory, with a
 file of its own for each stream

---
 src/hwp5/storage/__init__.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index f07391b..2a2c948 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -129,8 +129,14 @@ def unpack(stg, outbase):
         stg: an instance of Storage
         outbase: path to a directory in filesystem (should not end with '/')
     '''
+    outnames = []
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outname = get_unpack_filename(name)
+        while outname in outnames:
+            outname += '_'
+        outnames.append(outname)
+
+        outpath = os.path.join(outbase, outname)
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -139,11 +145,25 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
-                with io.open(outpath, 'wb') as outfile:
-                    outfile.write(f.read())
+                data = f.read()
             finally:
                 f.close()
+            with io.open(outpath, 'wb') as outfile:
+                outfile.write(data)
+
+
+def get_unpack_filename(name):
+    ''' a file name, for the storage item, in the directory of its storage
+
+        Characters which would refer to other directories are replaced.
+    '''
+    unsafe = '\x00\x05' + os.sep + (os.altsep or '')
+    if name in ('', os.curdir, os.pardir):
+        unsafe += '.'
+    return ''.join(
+        '_%02x' % ord(c) if c in unsafe else c
+        for c in name
+    ) or '_'
 
 
 def open_storage_item(stg, path):
-- 
2.43.0


From 4ca03a83088272e02f0f97bd9ad6ac89bedb96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 40/97] fix: directory-based storage has only the items of its
 directory

---
 src/hwp5/storage/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/storage/fs.py b/src/hwp5/storage/fs.py
index 226311d..f8b2155 100644
--- a/src/hwp5/storage/fs.py
+++ b/src/hwp5/storage/fs.py
@@ -33,6 +33,8 @@ class FileSystemStorage(object):
         return iter(sorted(os.listdir(self.path)))
 
     def __getitem__(self, name):
+        if name not in os.listdir(self.path):
+            raise KeyError(name)
         path = os.path.join(self.path, name)
         if os.path.isdir(path):
             return FileSystemStorage(path)
-- 
2.43.0


From 0e26e8c5e85405f43b357b9c6c7aa7477bbefb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 41/97] fix: odt: resolve the western font of a CharShape among
 the en fonts

---
 src/hwp5/xsl/odt/common.xsl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 1581919..f854389 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -541,7 +541,8 @@
   </xsl:template>
 
   <xsl:template mode="style:font-name" match="FontFace">
-    <xsl:variable name="facename-en-id" select="@en + 1"/>
+    <!-- FontFace/@en counts from the first font for en, after those for ko -->
+    <xsl:variable name="facename-en-id" select="//IdMappings/@ko-fonts + @en + 1"/>
     <xsl:apply-templates mode="style:font-name" select="//FaceName[$facename-en-id]" />
   </xsl:template>
 
-- 
2.43.0


From faadae1e2a03067869ccf9c9ac49bdabc0c1d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 42/97] fix: odt: no empty font-family-generic for a font
 without panose

---
 src/hwp5/xsl/odt/common.xsl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index f854389..c4788df 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -198,12 +198,14 @@
       <!-- Panose1/@serif-style -->
       <!-- 2..10 : serif(roman) -->
       <!-- 11~15 : sans-serif(swiss) -->
-      <xsl:attribute name="style:font-family-generic">
-        <xsl:choose>
-          <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
-          <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
-        </xsl:choose>
-      </xsl:attribute>
+      <xsl:if test="Panose1">
+        <xsl:attribute name="style:font-family-generic">
+          <xsl:choose>
+            <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
+            <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
+          </xsl:choose>
+        </xsl:attribute>
+      </xsl:if>
       <!-- TODO: Panose1/@proportion -->
       <xsl:attribute name="style:font-pitch">variable</xsl:attribute>
     </xsl:element>
-- 
2.43.0


From 57ae71dd69276d16ac9f0fcf2720332f52bbfcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 43/97] fix: html: a bullet only for paragraphs headed by
 bullets

---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index c8943ad..8a0f899 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -205,7 +205,7 @@
         <xsl:variable name="parashape_pos" select="number(@parashape-id) + 1" />
         <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
         <xsl:variable name="bullet_id" select="$parashape/@numbering-bullet-id" />
-        <xsl:if test="$bullet_id &gt; 0">
+        <xsl:if test="$parashape/@head-shape = 'bullet' and $bullet_id &gt; 0">
             <xsl:text> </xsl:text>
             <xsl:text>Bullet-</xsl:text>
             <xsl:value-of select="$parashape/@numbering-bullet-id" />
-- 
2.43.0


From 1828d10fc9199e11dcb0f52c54b62d8dfdcfe940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 44/97] fix: html: keep the text and objects enclosed in fields

---
 src/hwp5/xsl/hwp5html.xsl | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 1aa1344..8ce666f 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -127,18 +127,24 @@
         </xsl:choose>
       </xsl:attribute>
       <xsl:for-each select="LineSeg">
-        <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']" />
+        <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(local-name(), 'Field')]" />
       </xsl:for-each>
     </xsl:element>
-    <xsl:apply-templates select="LineSeg/TableControl[@inline='0']" />
-    <xsl:apply-templates select="LineSeg/GShapeObjectControl[@inline='0']" />
+    <xsl:variable name="depth" select="count(ancestor-or-self::Paragraph)" />
+    <xsl:apply-templates select="LineSeg//TableControl[@inline='0'][count(ancestor::Paragraph) = $depth]" />
+    <xsl:apply-templates select="LineSeg//GShapeObjectControl[@inline='0'][count(ancestor::Paragraph) = $depth]" />
+  </xsl:template>
+
+  <!-- a field: what it encloses is a part of the line -->
+  <xsl:template match="LineSeg//*[starts-with(local-name(), 'Field')]">
+    <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(local-name(), 'Field')]" />
   </xsl:template>
 
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
-  <xsl:template match="Paragraph/LineSeg/Text">
+  <xsl:template match="LineSeg//Text">
     <xsl:element name="span">
-      <xsl:variable name="styleid" select="../../@style-id"/>
+      <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
       <xsl:variable name="stylename" select="$style/@name" />
       <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
@@ -435,7 +441,7 @@
   </xsl:template>
 
   <xsl:template match="TableControl|GShapeObjectControl" mode="extendedcontrol-hpos">
-    <xsl:variable name="paragraph" select="../.." />
+    <xsl:variable name="paragraph" select="ancestor::Paragraph[1]" />
     <xsl:variable name="parashape_pos" select="number($paragraph/@parashape-id) + 1" />
     <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
     <xsl:variable name="columnset" select="$paragraph/.." />
-- 
2.43.0


From d50505a4c91b11fe2a9bbd6431ca6ccd76aaf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 45/97] fix: html: headers and footers only in the section they
 belong to

---
 src/hwp5/xsl/hwp5html.xsl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 8ce666f..ae0297c 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -80,12 +80,12 @@
       </xsl:attribute>
       <xsl:element name="div">
         <xsl:attribute name="class">HeaderPageFooter</xsl:attribute>
-        <xsl:apply-templates select="//Header" mode="div" />
+        <xsl:apply-templates select=".//Header" mode="div" />
         <xsl:element name="div">
           <xsl:attribute name="class">Page</xsl:attribute>
           <xsl:apply-templates />
         </xsl:element>
-        <xsl:apply-templates select="//Footer" mode="div" />
+        <xsl:apply-templates select=".//Footer" mode="div" />
       </xsl:element>
     </xsl:element>
   </xsl:template>
-- 
2.43.0


From 6c739aef542c28eefb91fbea7e486c3cb80c92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 46/97] fix: html: keep the text of footnotes and endnotes

---
 src/hwp5/xsl/hwp5html.xsl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index ae0297c..f54fc2c 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -133,6 +133,8 @@
     <xsl:variable name="depth" select="count(ancestor-or-self::Paragraph)" />
     <xsl:apply-templates select="LineSeg//TableControl[@inline='0'][count(ancestor::Paragraph) = $depth]" />
     <xsl:apply-templates select="LineSeg//GShapeObjectControl[@inline='0'][count(ancestor::Paragraph) = $depth]" />
+    <xsl:apply-templates select="LineSeg//FootNote[count(ancestor::Paragraph) = $depth]" />
+    <xsl:apply-templates select="LineSeg//EndNote[count(ancestor::Paragraph) = $depth]" />
   </xsl:template>
 
   <!-- a field: what it encloses is a part of the line -->
@@ -140,6 +142,13 @@
     <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(local-name(), 'Field')]" />
   </xsl:template>
 
+  <xsl:template match="FootNote|EndNote">
+    <xsl:element name="div">
+      <xsl:attribute name="class"><xsl:value-of select="local-name()" /></xsl:attribute>
+      <xsl:apply-templates select="ListHeader/Paragraph" />
+    </xsl:element>
+  </xsl:template>
+
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
   <xsl:template match="LineSeg//Text">
-- 
2.43.0


From 9d69bfeb0a804ae61765d26a0e70595fc66ab174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:26 +0000
Subject: [PATCH 47/97] fix: html: keep hyphens and spaces which are control
 characters

---
 src/hwp5/xsl/hwp5html.xsl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index f54fc2c..676513f 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -151,6 +151,12 @@
 
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
+  <xsl:template match="ControlChar[@name = 'HYPHEN']"><xsl:text>-</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'NONBREAK_SPACE']"><xsl:text>&#160;</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'FIXWIDTH_SPACE']"><xsl:text> </xsl:text></xsl:template>
+
   <xsl:template match="LineSeg//Text">
     <xsl:element name="span">
       <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
-- 
2.43.0


From a3a0462102f6e274e8b17987c025e49a0ce3d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 48/97] fix: txt: keep tabs, line breaks, hyphens and spaces
 which are control characters

---
 src/hwp5/xsl/plaintext.xsl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hwp5/xsl/plaintext.xsl b/src/hwp5/xsl/plaintext.xsl
index d1c997d..8d269be 100644
--- a/src/hwp5/xsl/plaintext.xsl
+++ b/src/hwp5/xsl/plaintext.xsl
@@ -52,6 +52,16 @@
 
   <xsl:template match="ControlChar"></xsl:template>
 
+  <xsl:template match="ControlChar[@name = 'TAB']"><xsl:text>&#9;</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'LINE_BREAK']"><xsl:text>&#10;</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'HYPHEN']"><xsl:text>-</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'NONBREAK_SPACE']"><xsl:text>&#160;</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'FIXWIDTH_SPACE']"><xsl:text> </xsl:text></xsl:template>
+
   <xsl:template match="TableControl">&#10;&lt;표&gt;&#10;</xsl:template>
 
   <xsl:template match="GShapeObjectControl">&#10;&lt;그림&gt;&#10;</xsl:template>
-- 
2.43.0


From c8ffa2a668bb5a2db8c51f35d247b2fc81ae0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 49/97] fix: txt: paragraphs of notes, headers and footers on
 lines of their own

---
 src/hwp5/xsl/plaintext.xsl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/xsl/plaintext.xsl b/src/hwp5/xsl/plaintext.xsl
index 8d269be..44db61a 100644
--- a/src/hwp5/xsl/plaintext.xsl
+++ b/src/hwp5/xsl/plaintext.xsl
@@ -62,6 +62,8 @@
 
   <xsl:template match="ControlChar[@name = 'FIXWIDTH_SPACE']"><xsl:text> </xsl:text></xsl:template>
 
+  <xsl:template match="FootNote|EndNote|Header|Footer|HiddenComment"><xsl:text>&#10;</xsl:text><xsl:apply-templates/></xsl:template>
+
   <xsl:template match="TableControl">&#10;&lt;표&gt;&#10;</xsl:template>
 
   <xsl:template match="GShapeObjectControl">&#10;&lt;그림&gt;&#10;</xsl:template>
-- 
2.43.0


From cb6b6273654904451d972d0c20477e3ae9f17087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 50/97] fix: odt: keep tabs, line breaks, hyphens and spaces
 which are control characters

---
 src/hwp5/xsl/odt/common.xsl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index c4788df..0e58de7 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -925,6 +925,16 @@
 
   <xsl:template match="ControlChar"></xsl:template>
 
+  <xsl:template match="ControlChar[@name = 'TAB']"><text:tab/></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'LINE_BREAK']"><text:line-break/></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'HYPHEN']"><xsl:text>-</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'NONBREAK_SPACE']"><xsl:text>&#160;</xsl:text></xsl:template>
+
+  <xsl:template match="ControlChar[@name = 'FIXWIDTH_SPACE']"><text:s/></xsl:template>
+
   <xsl:template match="TableControl">
     <xsl:variable name="table-id" select="@table-id + 1" />
     <xsl:element name="table:table">
-- 
2.43.0


From b510908b017c3a741b7516b8724bd18ee8cb9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 51/97] fix: odt: keep what fields enclose, refer to the text
 styles declared

---
 src/hwp5/xsl/odt/common.xsl | 64 ++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 0e58de7..423c598 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -723,22 +723,29 @@
 
     <xsl:variable name="paragraph-id" select="@paragraph-id + 1"/>
     <xsl:for-each select="LineSeg">
-      <xsl:variable name="lineseg-pos" select="position()" />
-      <xsl:for-each select="Text">
-        <xsl:variable name="text-pos" select="position()" />
-        <xsl:variable name="style-name">
-          <xsl:text>p</xsl:text>
-          <xsl:value-of select="$paragraph-id" />
-          <xsl:text>-</xsl:text>
-          <xsl:value-of select="$lineseg-pos"/>
-          <xsl:text>-</xsl:text>
-          <xsl:value-of select="$text-pos"/>
-        </xsl:variable>
-        <xsl:apply-templates mode="style:style" select=".">
-          <xsl:with-param name="style-name" select="$style-name" />
-          <xsl:with-param name="style-charshape-id" select="$style/@charshape-id + 1" />
-        </xsl:apply-templates>
-      </xsl:for-each>
+      <xsl:apply-templates mode="style-style-for-text" select=".">
+        <xsl:with-param name="style-name-prefix" select="concat('p', $paragraph-id, '-', position())" />
+        <xsl:with-param name="style-charshape-id" select="$style/@charshape-id + 1" />
+      </xsl:apply-templates>
+    </xsl:for-each>
+  </xsl:template>
+
+  <!-- styles for the texts of a line or of a field in it: they are named with
+       the position among the texts, as the texts refer to them -->
+  <xsl:template mode="style-style-for-text" match="LineSeg|*[starts-with(local-name(), 'Field')]">
+    <xsl:param name="style-name-prefix" />
+    <xsl:param name="style-charshape-id" />
+    <xsl:for-each select="Text">
+      <xsl:apply-templates mode="style:style" select=".">
+        <xsl:with-param name="style-name" select="concat($style-name-prefix, '-', position())" />
+        <xsl:with-param name="style-charshape-id" select="$style-charshape-id" />
+      </xsl:apply-templates>
+    </xsl:for-each>
+    <xsl:for-each select="*[starts-with(local-name(), 'Field')]">
+      <xsl:apply-templates mode="style-style-for-text" select=".">
+        <xsl:with-param name="style-name-prefix" select="concat($style-name-prefix, '-f', position())" />
+        <xsl:with-param name="style-charshape-id" select="$style-charshape-id" />
+      </xsl:apply-templates>
     </xsl:for-each>
   </xsl:template>
 
@@ -895,29 +902,40 @@
           <xsl:with-param name="paragraph" select="."/>
         </xsl:apply-templates>
       </xsl:element>
-      <xsl:apply-templates select="LineSeg/TableControl"/>
+      <xsl:variable name="depth" select="count(ancestor-or-self::Paragraph)" />
+      <xsl:apply-templates select="LineSeg//TableControl[count(ancestor::Paragraph) = $depth]"/>
   </xsl:template>
 
   <xsl:template match="LineSeg">
     <xsl:param name="paragraph" />
-    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar">
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(local-name(), 'Field')]">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="style-name-prefix" select="concat('p', $paragraph/@paragraph-id + 1, '-', position())"/>
+    </xsl:apply-templates>
+  </xsl:template>
+
+  <!-- a field: what it encloses is a part of the line -->
+  <xsl:template match="LineSeg//*[starts-with(local-name(), 'Field')]">
+    <xsl:param name="paragraph" />
+    <xsl:param name="style-name-prefix" />
+    <xsl:variable name="field-pos" select="count(preceding-sibling::*[starts-with(local-name(), 'Field')]) + 1"/>
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(local-name(), 'Field')]">
       <xsl:with-param name="paragraph" select="$paragraph"/>
-      <xsl:with-param name="lineseg-pos" select="position()"/>
+      <xsl:with-param name="style-name-prefix" select="concat($style-name-prefix, '-f', $field-pos)"/>
     </xsl:apply-templates>
   </xsl:template>
 
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
-    <xsl:param name="lineseg-pos"/>
-    <xsl:variable name="text-pos" select="position()"/>
-    <xsl:variable name="paragraph-id" select="$paragraph/@paragraph-id + 1" />
+    <xsl:param name="style-name-prefix"/>
+    <xsl:variable name="text-pos" select="count(preceding-sibling::Text) + 1"/>
     <xsl:variable name="style-id" select="$paragraph/@style-id + 1" />
     <xsl:variable name="style" select="/HwpDoc/DocInfo/IdMappings/Style[$style-id]" />
     <xsl:variable name="style-charshape-id" select="$style/@charshape-id + 1" />
     <xsl:element name="text:span">
       <xsl:variable name="charshape-id" select="@charshape-id + 1" />
       <xsl:if test="$style-charshape-id != $charshape-id">
-        <xsl:attribute name="text:style-name">p<xsl:value-of select="$paragraph-id"/>-<xsl:value-of select="$lineseg-pos"/>-<xsl:value-of select="$text-pos"/></xsl:attribute>
+        <xsl:attribute name="text:style-name"><xsl:value-of select="$style-name-prefix"/>-<xsl:value-of select="$text-pos"/></xsl:attribute>
       </xsl:if>
       <xsl:value-of select="text()"/>
     </xsl:element>
-- 
2.43.0


From a02e97223ed15482d955ea398e1b35fe7f23f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 52/97] fix: find: the last filename from stdin may lack a
 newline

---
 src/hwp5/proc/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..f82a3e5 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -168,7 +168,7 @@ def filenames_from_args(args):
 
 
 def filenames_from_stdin(args):
-    return imap(lambda line: line[:-1], sys.stdin)
+    return imap(lambda line: line.rstrip('\r\n'), sys.stdin)
 
 
 def conditions_from_args(args):
-- 
2.43.0


From 613675803c0eb15031b398531bb10d2531e505a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 53/97] fix: find: records of unnamed tags can be searched by
 number

---
 src/hwp5/proc/find.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index f82a3e5..9b0ba9f 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -68,7 +68,7 @@ from ..binmodel import Hwp5File
 from ..binmodel import model_to_json
 from ..bintype import log_events
 from ..dataio import ParseError
-from ..tagids import tagnames
+from ..recordstream import tagname
 
 
 PY2 = sys.version_info.major == 2
@@ -185,7 +185,7 @@ def conditions_from_args(args):
         except ValueError:
             pass
         else:
-            tag = tagnames[tag]
+            tag = tagname(tag)
 
         def with_tag(model):
             return model['tagname'] == tag
-- 
2.43.0


From cae908399581697910ecf3da8816af31703cbdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 54/97] fix: models: keep non-ASCII characters of --format

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index cf5cfd0..7009ccd 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -131,7 +131,7 @@ def unicode_unescape(s):
     :rtype:
         unicode
     '''
-    return s.encode('utf-8').decode('unicode_escape')
+    return s.encode('ascii', 'backslashreplace').decode('unicode_escape')
 
 
 def transcode(backend_stream, backend_encoding, frontend_encoding,
-- 
2.43.0


From 3d1555a30797a74907893cc18970732aabf96d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:42 +0000
Subject: [PATCH 55/97] fix: models: --events respects --treegroup and --seqno

---
 src/hwp5/proc/models.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/models.py b/src/hwp5/proc/models.py
index 4d95626..17e69c7 100644
--- a/src/hwp5/proc/models.py
+++ b/src/hwp5/proc/models.py
@@ -30,6 +30,7 @@ from ..cli import parse_recordstream_name
 from ..dataio import hexdump
 from ..storage import Open2Stream
 from ..treeop import ENDEVENT
+from ..treeop import STARTEVENT
 from ..utils import generate_json_array
 from ..utils import unicode_unescape
 
@@ -40,7 +41,8 @@ PY2 = sys.version_info.major == 2
 def main(args):
     stream = stream_from_args(args)
     if args.events:
-        for event, item in stream.parse_model_events():
+        events = select_events(args, stream.parse_model_events())
+        for event, item in events:
             type = item['type'].__name__
             if event is not None:
                 if item['type'] is RecordModel:
@@ -189,6 +191,18 @@ def models_from_args(args):
     return lambda stream: stream.models()
 
 
+def select_events(args, events):
+    treegroup = int(args.treegroup) if args.treegroup else None
+    seqno = int(args.seqno) if args.seqno else None
+    selected = False
+    for event, item in events:
+        if event is STARTEVENT and item['type'] is RecordModel:
+            selected = (treegroup in (None, item['treegroup']) and
+                        seqno in (None, item['record']['seqno']))
+        if selected:
+            yield event, item
+
+
 def print_models_from_args(args):
 
     if args.simple:
-- 
2.43.0


From db46039caaa0bd48f920ad9a7af43cc51d5ae112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 56/97] fix: olestorage: refuse malformed OLE2 files with
 InvalidOleStorageError

---
 src/hwp5/plat/olefileio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index f5aea90..567eb97 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -112,7 +112,13 @@ class OleStorage(OleStorageItem):
             if not isOleFile(olefile):
                 errormsg = 'Not an OLE2 Compound Binary File.'
                 raise InvalidOleStorageError(errormsg)
-            olefile = OleFileIO(olefile)
+            try:
+                olefile = OleFileIO(olefile)
+            except Exception as e:
+                if getattr(e, 'errno', None) is not None:
+                    raise  # it can't be read
+                errormsg = 'Invalid OLE2 Compound Binary File: %s' % e
+                raise InvalidOleStorageError(errormsg)
         OleStorageItem.__init__(self, olefile, path, parent)
 
     def __iter__(self):
-- 
2.43.0


From cd28e1bfb38053d253cbe1b3629c0d62e4695332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 57/97] fix: filestructure: refuse files with an incomplete
 FileHeader

---
 src/hwp5/filestructure.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 633a99c..bbcaff6 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -25,6 +25,7 @@ import sys
 
 from .bintype import read_type
 from .compressed import decompress
+from .dataio import ParseError
 from .dataio import UINT32, Flags, Struct
 from .errors import InvalidOleStorageError
 from .errors import InvalidHwp5FileError
@@ -107,7 +108,15 @@ def storage_is_hwp5file(stg):
     except KeyError:
         logger.info('stg has no FileHeader')
         return False
+    if not is_stream(fileheader):
+        logger.info('FileHeader is not a stream')
+        return False
     fileheader = HwpFileHeader(fileheader)
+    try:
+        fileheader.value
+    except ParseError as e:
+        logger.info('FileHeader is incomplete: %s', e)
+        return False
     if fileheader.signature == HWP5_SIGNATURE:
         return True
     else:
-- 
2.43.0


From 8ab8e1276aa25c081cff0f63a8ba85c18ec74466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 58/97] fix: hwp5proc: refuse files which are not OLE2 files
 cleanly with --ole

---
 src/hwp5/hwp5proc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5proc.py b/src/hwp5/hwp5proc.py
index e03edc4..8374cd6 100644
--- a/src/hwp5/hwp5proc.py
+++ b/src/hwp5/hwp5proc.py
@@ -29,6 +29,7 @@ from . import __version__
 from .cli import init_logger
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
+from .errors import InvalidOleStorageError
 
 
 PY3 = sys.version_info.major == 3
@@ -80,7 +81,7 @@ def main():
 
     try:
         return subcommand_fn(args)
-    except InvalidHwp5FileError as e:
+    except (InvalidHwp5FileError, InvalidOleStorageError) as e:
         logger.error('%s', e)
         raise SystemExit(1)
     except ParseError as e:
-- 
2.43.0


From 1b639a5921dfe2f66ee8ff97b7da72e0e04c3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 59/97] fix: filestructure: close files which are only tested
 or refused

---
 src/hwp5/filestructure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index bbcaff6..dd6858c 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -99,7 +99,10 @@ def is_hwp5file(filename):
         olestg = OleStorage(filename)
     except InvalidOleStorageError:
         return False
-    return storage_is_hwp5file(olestg)
+    try:
+        return storage_is_hwp5file(olestg)
+    finally:
+        olestg.close()
 
 
 def storage_is_hwp5file(stg):
@@ -192,13 +195,16 @@ class Hwp5FileBase(ItemConversionStorage):
     '''
 
     def __init__(self, stg):
+        olestg = None
         if isinstance(stg, basestring):
             try:
-                stg = OleStorage(stg)
+                stg = olestg = OleStorage(stg)
             except InvalidOleStorageError:
                 raise InvalidHwp5FileError('Not an OLE2 Compound Binary File.')
 
         if not storage_is_hwp5file(stg):
+            if olestg is not None:
+                olestg.close()
             errormsg = 'Not an HWP Document format v5 storage.'
             raise InvalidHwp5FileError(errormsg)
 
-- 
2.43.0


From 70cf823e40c8af624993d8c4bae6d806b9e76c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 60/97] fix: filestructure: accept OleFileIO instances as
 documented

---
 src/hwp5/filestructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index dd6858c..e053ad4 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -201,6 +201,8 @@ class Hwp5FileBase(ItemConversionStorage):
                 stg = olestg = OleStorage(stg)
             except InvalidOleStorageError:
                 raise InvalidHwp5FileError('Not an OLE2 Compound Binary File.')
+        elif hasattr(stg, 'openstream'):
+            stg = OleStorage(stg)
 
         if not storage_is_hwp5file(stg):
             if olestg is not None:
-- 
2.43.0


From 23ce8331a7eb9b090e315a2296c396ba011a58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 61/97] fix: xsltproc: report failures of xsltproc

---
 src/hwp5/plat/xsltproc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 747f649..179c170 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -84,10 +84,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise CalledProcessError(p.returncode, cmd)
+        return dict()
 
     def transform_into_stream(self, input, output):
         '''
@@ -97,10 +96,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd, stdout=output)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise CalledProcessError(p.returncode, cmd)
+        return dict()
 
 
 def xslt_compile(xsl_path, **params):
-- 
2.43.0


From 0b6c0a0b4385413c0e1fbcde7a4a42424e14ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 62/97] fix: xmllint: keep invalid results out of validated
 outputs

---
 src/hwp5/plat/xmllint.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 2ef1e09..d1a3665 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -22,8 +22,12 @@ from __future__ import unicode_literals
 from contextlib import contextmanager
 from subprocess import CalledProcessError
 import logging
+import shutil
 import subprocess
 
+from ..errors import ValidationFailed
+from ..utils import mkstemp_open
+
 
 logger = logging.getLogger(__name__)
 
@@ -82,16 +86,13 @@ class RelaxNG:
 
     @contextmanager
     def validating_output(self, output):
-        args = [executable, '--relaxng', self.rng_path, '-']
-        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=output)
-        try:
-            yield p.stdin
-        except:
-            p.stdin.close()
-            p.wait()
-            raise
-        else:
-            p.stdin.close()
-            p.wait()
-            if p.returncode != 0:
-                raise Exception('RelaxNG validation failed')
+        with mkstemp_open() as (path, f):
+            yield f
+            f.flush()
+            if not self.validate(path):
+                raise ValidationFailed('RelaxNG')
+            f.seek(0)
+            shutil.copyfileobj(f, output)
+
+    def validate(self, input):
+        return relaxng(self.rng_path, input)
-- 
2.43.0


From 3705e553d247e80273ee358e63e4dae2888f965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 63/97] fix: plat: remove the temporary file of openssl in any
 case

---
 src/hwp5/plat/__init__.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index 77082d3..a3eeed5 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -158,24 +158,21 @@ def get_aes128ecb_decrypt_openssl():
 
     def decrypt(key, ciphertext):
         fd, name = tempfile.mkstemp()
-        fp = os.fdopen(fd, 'wb')
-        try:
-            fp.write(ciphertext)
-        finally:
-            fp.close()
-
-        args = [
-            'openssl',
-            'enc',
-            '-d',
-            '-in',
-            name,
-            '-aes-128-ecb',
-            '-K',
-            b2a_hex(key),
-            '-nopad',
-        ]
         try:
+            with os.fdopen(fd, 'wb') as fp:
+                fp.write(ciphertext)
+
+            args = [
+                'openssl',
+                'enc',
+                '-d',
+                '-in',
+                name,
+                '-aes-128-ecb',
+                '-K',
+                b2a_hex(key),
+                '-nopad',
+            ]
             p = Popen(args, stdout=subprocess.PIPE)
             try:
                 decrypted = p.stdout.read()
-- 
2.43.0


From 4e382da75fac9dcf66cc448439097d1d2f49bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 64/97] fix: utils: report failures of xmllint

---
 src/hwp5/utils.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 7009ccd..ca3ed6e 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from contextlib import contextmanager
 from functools import partial
 import codecs
+import errno
 import logging
 import os
 import shlex
@@ -297,7 +298,7 @@ def null_contextmanager_filter(output):
     yield output
 
 
-def output_thru_subprocess(cmd):
+def output_thru_subprocess(cmd, check=True):
     @contextmanager
     def filter(output):
         logger.debug('%r', cmd)
@@ -310,14 +311,20 @@ def output_thru_subprocess(cmd):
             try:
                 yield p.stdin
             except IOError as e:
-                import errno
                 if e.errno != errno.EPIPE:
                     raise
             finally:
-                p.stdin.close()
-                p.wait()
-                retcode = p.returncode
-                logger.debug('%r exit %d', cmd, retcode)
+                try:
+                    p.stdin.close()
+                except IOError as e:
+                    if e.errno != errno.EPIPE:
+                        raise
+                finally:
+                    p.wait()
+                    retcode = p.returncode
+                    logger.debug('%r exit %d', cmd, retcode)
+            if check and retcode != 0:
+                raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
 
@@ -382,11 +389,11 @@ def pager():
     pager_cmd = os.environ.get('PAGER')
     if pager_cmd:
         pager_cmd = shlex.split(pager_cmd)
-        return output_thru_subprocess(pager_cmd)
+        return output_thru_subprocess(pager_cmd, check=False)
     return pager_less
 
 
-pager_less = output_thru_subprocess(['less', '-R'])
+pager_less = output_thru_subprocess(['less', '-R'], check=False)
 
 
 @contextmanager
-- 
2.43.0


From 163ae1f6567707f5d3858001c907fff77b50dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 65/97] fix: hwp5odt: exit with an error when parsing fails

---
 src/hwp5/hwp5odt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..d7ae124 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -365,6 +365,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From 29c6000aa888b06efe6bd6baf1c9719a026a4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 66/97] fix: hwp5html: exit with an error when parsing fails

---
 src/hwp5/hwp5html.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From 942025ff074a1f6fe6b8a856af1b6fc7f0d1c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 67/97] fix: hwp5txt: exit with an error when parsing fails

---
 src/hwp5/hwp5txt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From dcc1a67e4d96a53b46cfb3fde1bb4812dcd2e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:49 +0000
Subject: [PATCH 68/97] fix: find: exit with an error when a file fails to be
 parsed

---
 src/hwp5/proc/find.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 9b0ba9f..26df08c 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -93,6 +93,7 @@ def main(args):
 
     print_model = printer_from_args(args)
 
+    failed = False
     for filename in filenames:
         try:
             models = hwp5file_models(filename)
@@ -102,6 +103,9 @@ def main(args):
         except ParseError as e:
             logger.error('---- On processing %s:', filename)
             e.print_to_logger(logger)
+            failed = True
+    if failed:
+        raise SystemExit(1)
 
 
 def find_argparser(subparsers, _):
-- 
2.43.0


From e4ff7aef8966df0a6caa4e6466a8396221145a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 69/97] fix: utils: no failure when the reader of xmllint stops
 reading

---
 src/hwp5/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index ca3ed6e..198c635 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -27,6 +27,7 @@ import logging
 import os
 import shlex
 import shutil
+import signal
 import subprocess
 import sys
 import tempfile
@@ -36,6 +37,7 @@ from .importhelper import pkg_resources_filename
 
 PY3 = sys.version_info.major == 3
 logger = logging.getLogger(__name__)
+SIGPIPE = getattr(signal, 'SIGPIPE', 0)
 
 
 class NIL:
@@ -323,7 +325,8 @@ def output_thru_subprocess(cmd, check=True):
                     p.wait()
                     retcode = p.returncode
                     logger.debug('%r exit %d', cmd, retcode)
-            if check and retcode != 0:
+            # SIGPIPE: the reader of the output wants no more
+            if check and retcode not in (0, -SIGPIPE):
                 raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
-- 
2.43.0


From 457f67b15a96f96695868db10b085b0072c1d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 70/97] fix: xmlmodel: embed large binaries in linear time

---
 src/hwp5/xmlmodel.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 8c7978f..344c7ba 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -571,14 +571,7 @@ def embed_bindata(event_prefixed_mac, bindata):
                     bin_stream.close()
                 b64 = base64.b64encode(binary)
                 b64 = b64.decode('ascii')
-                truncated = []
-                while b64:
-                    if len(b64) > 64:
-                        truncated.append(b64[:64])
-                        b64 = b64[64:]
-                    else:
-                        truncated.append(b64)
-                        b64 = ''
+                truncated = [b64[i:i + 64] for i in range(0, len(b64), 64)]
                 b64 = '\n'.join(truncated)
                 b64 = '\n' + b64 + '\n'
                 attributes['bindata']['<text>'] = b64
-- 
2.43.0


From c33979506164b28673cac99b4c0229330959546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:11 +0000
Subject: [PATCH 71/97] fix: plat/_lxml: accept documents with large embedded
 binaries

---
 src/hwp5/plat/_lxml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/_lxml.py b/src/hwp5/plat/_lxml.py
index 8ef12dc..dd9364c 100644
--- a/src/hwp5/plat/_lxml.py
+++ b/src/hwp5/plat/_lxml.py
@@ -98,7 +98,7 @@ class XSLT:
         # input, output: binary stream
 
         from lxml import etree
-        source = etree.parse(input)
+        source = etree.parse(input, etree.XMLParser(huge_tree=True))
         logger.info('_lxml.xslt(%s) start',
                     os.path.basename(self.xsl_path))
         result = self.etree_xslt(source, **self.params)
@@ -155,12 +155,12 @@ class RelaxNG:
     def validate(self, input):
         from lxml import etree
         with io.open(input, 'rb') as f:
-            doc = etree.parse(f)
+            doc = etree.parse(f, etree.XMLParser(huge_tree=True))
         return self._validate(doc)
 
     def validate_stream(self, input):
         from lxml import etree
-        doc = etree.parse(input)
+        doc = etree.parse(input, etree.XMLParser(huge_tree=True))
         return self._validate(doc)
 
     def _validate(self, doc):
-- 
2.43.0


From cce0e3da75fd46e87ee8fe52b920e8f21cb1dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 72/97] fix: utils: xmllint: accept documents with large
 embedded binaries

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 198c635..621f5c3 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -332,7 +332,7 @@ def output_thru_subprocess(cmd, check=True):
 
 
 def xmllint(c14n=False, encode=None, format=False, nonet=True):
-    cmd = ['xmllint']
+    cmd = ['xmllint', '--huge']
     if c14n:
         cmd.append('--c14n')
     if encode:
-- 
2.43.0


From 3a18c58ef7677b37ef1e4a4ba17e836feab00692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 73/97] fix: odt: convert tables in text boxes and text boxes
 of other shapes

---
 src/hwp5/xsl/odt/common.xsl | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 423c598..ce92c9c 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1602,6 +1602,31 @@
     </xsl:element>
   </xsl:template>
 
+  <!-- text boxes of other shapes, and those with tables: the text of a
+       draw:rect can not have tables in it -->
+  <xsl:template match="ShapeComponent[TextboxParagraphList][@chid != '$rec' or TextboxParagraphList//TableControl]" priority="1">
+    <xsl:param name="x" />
+    <xsl:param name="y" />
+
+    <xsl:element name="draw:frame">
+      <xsl:attribute name="draw:style-name">Shape-<xsl:value-of select="@shape-id + 1"/></xsl:attribute>
+      <xsl:apply-templates mode="draw-image-frame-attributes" select="..">
+	<xsl:with-param name="shapecomponent-pict" select="." />
+      </xsl:apply-templates>
+
+      <xsl:apply-templates mode="draw-transform" select=".">
+	<xsl:with-param name="x" select="$x" />
+	<xsl:with-param name="y" select="$y" />
+      </xsl:apply-templates>
+
+      <draw:text-box>
+        <xsl:for-each select="TextboxParagraphList">
+          <xsl:apply-templates />
+        </xsl:for-each>
+      </draw:text-box>
+    </xsl:element>
+  </xsl:template>
+
   <xsl:template match="ShapeComponent[@chid='$lin']">
     <xsl:param name="x" />
     <xsl:param name="y" />
-- 
2.43.0


From de73261e02d09724dc09e1c516f3c5993d0d3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:17 +0000
Subject: [PATCH 74/97] fix: odt: convert pictures which are not in the
 document

---
 src/hwp5/xsl/odt/common.xsl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index ce92c9c..448b8e4 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1505,6 +1505,8 @@
 	<xsl:variable name="binpath" select="'bindata/'"/>
 	<xsl:variable name="bindataid" select="PictureInfo/@bindata-id"/>
 	<xsl:variable name="bindata" select="/HwpDoc/DocInfo/IdMappings/BinData[number($bindataid)]"/>
+	<!-- a picture which is not in the document is an empty frame -->
+	<xsl:if test="$bindata/@storage = 'embedding'">
 	<xsl:element name="draw:image">
 	  <xsl:choose>
 	    <xsl:when test="$bindata/@storage = 'embedding'">
@@ -1528,6 +1530,7 @@
 	    </xsl:when>
 	  </xsl:choose>
 	</xsl:element>
+	</xsl:if>
       </xsl:for-each>
     </xsl:element>
   </xsl:template>
-- 
2.43.0


From c1ac6f032276a36d69cced47e9a407aac2094f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 75/97] fix: odt: styles with names which are not NCNames or
 not unique

---
 src/hwp5/xsl/odt/common.xsl | 50 ++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 448b8e4..00f2e85 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -211,17 +211,59 @@
     </xsl:element>
   </xsl:template>
 
+  <!-- the name of a style: its local name, or Style-N if that can not be the
+       name of a style or is the name of another one -->
   <xsl:template mode="make-style-name" match="Style">
-    <xsl:call-template name="make-ncname">
-      <xsl:with-param name="str" select="@local-name" />
-    </xsl:call-template>
+    <xsl:variable name="name">
+      <xsl:call-template name="make-ncname">
+        <xsl:with-param name="str" select="@local-name" />
+      </xsl:call-template>
+    </xsl:variable>
+    <xsl:variable name="name-is-used">
+      <xsl:for-each select="preceding-sibling::Style">
+        <xsl:variable name="other">
+          <xsl:call-template name="make-ncname">
+            <xsl:with-param name="str" select="@local-name" />
+          </xsl:call-template>
+        </xsl:variable>
+        <xsl:if test="$other = $name">1</xsl:if>
+      </xsl:for-each>
+    </xsl:variable>
+    <xsl:choose>
+      <xsl:when test="$name = '' or translate($name, $style-name-chars, '') != ''
+                      or contains('-.0123456789', substring($name, 1, 1))
+                      or $name-is-used != ''
+                      or contains($style-names-reserved, concat(' ', $name, ' '))
+                      or starts-with($name, 'Paragraph-')
+                      or starts-with($name, 'Style-')">
+        <xsl:text>Style-</xsl:text>
+        <xsl:value-of select="count(preceding-sibling::Style) + 1" />
+      </xsl:when>
+      <xsl:otherwise>
+        <xsl:value-of select="$name" />
+      </xsl:otherwise>
+    </xsl:choose>
   </xsl:template>
 
+  <!-- names of the paragraph styles in office:styles -->
+  <xsl:variable name="style-names-reserved"> Standard Heading Text_20_body List Caption Index Table_20_Contents </xsl:variable>
+
+  <!-- characters, of those in an NCName, which are used in names of styles -->
+  <xsl:variable name="style-name-chars">-._0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz가각간갇갈갉갊감갑값갓갔강갖갗같갚갛개객갠갤갬갭갯갰갱갸갹갼걀걋걍걔걘걜거걱건걷걸걺검겁것겄겅겆겉겊겋게겐겔겜겝겟겠겡겨격겪견겯결겸겹겻겼경곁계곈곌곕곗고곡곤곧골곪곬곯곰곱곳공곶과곽관괄괆괌괍괏광괘괜괠괩괬괭괴괵괸괼굄굅굇굉교굔굘굡굣구국군굳굴굵굶굻굼굽굿궁궂궈궉권궐궜궝궤궷귀귁귄귈귐귑귓규균귤그극근귿글긁금급긋긍긔기긱긴긷길긺김깁깃깅깆깊까깍깎깐깔깖깜깝깟깠깡깥깨깩깬깰깸깹깻깼깽꺄꺅꺌꺼꺽꺾껀껄껌껍껏껐껑께껙껜껨껫껭껴껸껼꼇꼈꼍꼐꼬꼭꼰꼲꼴꼼꼽꼿꽁꽂꽃꽈꽉꽐꽜꽝꽤꽥꽹꾀꾄꾈꾐꾑꾕꾜꾸꾹꾼꿀꿇꿈꿉꿋꿍꿎꿔꿜꿨꿩꿰꿱꿴꿸뀀뀁뀄뀌뀐뀔뀜뀝뀨끄끅끈끊끌끎끓끔끕끗끙끝끼끽낀낄낌낍낏낑나낙낚난낟날낡낢남납낫났낭낮낯낱낳내낵낸낼냄냅냇냈냉냐냑냔냘냠냥너넉넋넌널넒넓넘넙넛넜넝넣네넥넨넬넴넵넷넸넹녀녁년녈념녑녔녕녘녜녠노녹논놀놂놈놉놋농높놓놔놘놜놨뇌뇐뇔뇜뇝뇟뇨뇩뇬뇰뇹뇻뇽누눅눈눋눌눔눕눗눙눠눴눼뉘뉜뉠뉨뉩뉴뉵뉼늄늅늉느늑는늘늙늚늠늡늣능늦늪늬늰늴니닉닌닐닒님닙닛닝닢다닥닦단닫달닭닮닯닳담답닷닸당닺닻닿대댁댄댈댐댑댓댔댕댜더덕덖던덛덜덞덟덤덥덧덩덫덮데덱덴델뎀뎁뎃뎄뎅뎌뎐뎔뎠뎡뎨뎬도독돈돋돌돎돐돔돕돗동돛돝돠돤돨돼됐되된될됨됩됫됴두둑둔둘둠둡둣둥둬뒀뒈뒝뒤뒨뒬뒵뒷뒹듀듄듈듐듕드득든듣들듦듬듭듯등듸디딕딘딛딜딤딥딧딨딩딪따딱딴딸땀땁땃땄땅땋때땍땐땔땜땝땟땠땡떠떡떤떨떪떫떰떱떳떴떵떻떼떽뗀뗄뗌뗍뗏뗐뗑뗘뗬또똑똔똘똥똬똴뙈뙤뙨뚜뚝뚠뚤뚫뚬뚱뛔뛰뛴뛸뜀뜁뜅뜨뜩뜬뜯뜰뜸뜹뜻띄띈띌띔띕띠띤띨띰띱띳띵라락란랄람랍랏랐랑랒랖랗래랙랜랠램랩랫랬랭랴략랸럇량러럭런럴럼럽럿렀렁렇레렉렌렐렘렙렛렝려력련렬렴렵렷렸령례롄롑롓로록론롤롬롭롯롱롸롼뢍뢨뢰뢴뢸룀룁룃룅료룐룔룝룟룡루룩룬룰룸룹룻룽뤄뤘뤠뤼뤽륀륄륌륏륑류륙륜률륨륩륫륭르륵른를름릅릇릉릊릍릎리릭린릴림립릿링마막만많맏말맑맒맘맙맛망맞맡맣매맥맨맬맴맵맷맸맹맺먀먁먈먕머먹먼멀멂멈멉멋멍멎멓메멕멘멜멤멥멧멨멩며멱면멸몃몄명몇몌모목몫몬몰몲몸몹못몽뫄뫈뫘뫙뫼묀묄묍묏묑묘묜묠묩묫무묵묶문묻물묽묾뭄뭅뭇뭉뭍뭏뭐뭔뭘뭡뭣뭬뮈뮌뮐뮤뮨뮬뮴뮷므믄믈믐믓미믹민믿밀밂밈밉밋밌밍및밑바박밖밗반받발밝밞밟밤밥밧방밭배백밴밸뱀뱁뱃뱄뱅뱉뱌뱍뱐뱝버벅번벋벌벎범법벗벙벚베벡벤벧벨벰벱벳벴벵벼벽변별볍볏볐병볕볘볜보복볶본볼봄봅봇봉봐봔봤봬뵀뵈뵉뵌뵐뵘뵙뵤뵨부북분붇불붉붊붐붑붓붕붙붚붜붤붰붸뷔뷕뷘뷜뷩뷰뷴뷸븀븃븅브븍븐블븜븝븟비빅빈빌빎빔빕빗빙빚빛빠빡빤빨빪빰빱빳빴빵빻빼빽뺀뺄뺌뺍뺏뺐뺑뺘뺙뺨뻐뻑뻔뻗뻘뻠뻣뻤뻥뻬뼁뼈뼉뼘뼙뼛뼜뼝뽀뽁뽄뽈뽐뽑뽕뾔뾰뿅뿌뿍뿐뿔뿜뿟뿡쀼쁑쁘쁜쁠쁨쁩삐삑삔삘삠삡삣삥사삭삯산삳살삵삶삼삽삿샀상샅새색샌샐샘샙샛샜생샤샥샨샬샴샵샷샹섀섄섈섐섕서석섞섟선섣설섦섧섬섭섯섰성섶세섹센셀셈셉셋셌셍셔셕션셜셤셥셧셨셩셰셴셸솅소속솎손솔솖솜솝솟송솥솨솩솬솰솽쇄쇈쇌쇔쇗쇘쇠쇤쇨쇰쇱쇳쇼쇽숀숄숌숍숏숑수숙순숟술숨숩숫숭숯숱숲숴쉈쉐쉑쉔쉘쉠쉥쉬쉭쉰쉴쉼쉽쉿슁슈슉슐슘슛슝스슥슨슬슭슴습슷승시식신싣실싫심십싯싱싶싸싹싻싼쌀쌈쌉쌌쌍쌓쌔쌕쌘쌜쌤쌥쌨쌩썅써썩썬썰썲썸썹썼썽쎄쎈쎌쏀쏘쏙쏜쏟쏠쏢쏨쏩쏭쏴쏵쏸쐈쐐쐤쐬쐰쐴쐼쐽쑈쑤쑥쑨쑬쑴쑵쑹쒀쒔쒜쒸쒼쓩쓰쓱쓴쓸쓺쓿씀씁씌씐씔씜씨씩씬씰씸씹씻씽아악안앉않알앍앎앓암압앗았앙앝앞애액앤앨앰앱앳앴앵야약얀얄얇얌얍얏양얕얗얘얜얠얩어억언얹얻얼얽얾엄업없엇었엉엊엌엎에엑엔엘엠엡엣엥여역엮연열엶엷염엽엾엿였영옅옆옇예옌옐옘옙옛옜오옥온올옭옮옰옳옴옵옷옹옻와왁완왈왐왑왓왔왕왜왝왠왬왯왱외왹왼욀욈욉욋욍요욕욘욜욤욥욧용우욱운울욹욺움웁웃웅워웍원월웜웝웠웡웨웩웬웰웸웹웽위윅윈윌윔윕윗윙유육윤율윰윱윳융윷으윽은을읊음읍읏응읒읓읔읕읖읗의읜읠읨읫이익인일읽읾잃임입잇있잉잊잎자작잔잖잗잘잚잠잡잣잤장잦재잭잰잴잼잽잿쟀쟁쟈쟉쟌쟎쟐쟘쟝쟤쟨쟬저적전절젊점접젓정젖제젝젠젤젬젭젯젱져젼졀졈졉졌졍졔조족존졸졺좀좁좃종좆좇좋좌좍좔좝좟좡좨좼좽죄죈죌죔죕죗죙죠죡죤죵주죽준줄줅줆줌줍줏중줘줬줴쥐쥑쥔쥘쥠쥡쥣쥬쥰쥴쥼즈즉즌즐즘즙즛증지직진짇질짊짐집짓징짖짙짚짜짝짠짢짤짧짬짭짯짰짱째짹짼쨀쨈쨉쨋쨌쨍쨔쨘쨩쩌쩍쩐쩔쩜쩝쩟쩠쩡쩨쩽쪄쪘쪼쪽쫀쫄쫌쫍쫏쫑쫓쫘쫙쫠쫬쫴쬈쬐쬔쬘쬠쬡쭁쭈쭉쭌쭐쭘쭙쭝쭤쭸쭹쮜쮸쯔쯤쯧쯩찌찍찐찔찜찝찡찢찧차착찬찮찰참찹찻찼창찾채책챈챌챔챕챗챘챙챠챤챦챨챰챵처척천철첨첩첫첬청체첵첸첼쳄쳅쳇쳉쳐쳔쳤쳬쳰촁초촉촌촐촘촙촛총촤촨촬촹최쵠쵤쵬쵭쵯쵱쵸춈추축춘출춤춥춧충춰췄췌췐취췬췰췸췹췻췽츄츈츌츔츙츠측츤츨츰츱츳층치칙친칟칠칡침칩칫칭카칵칸칼캄캅캇캉캐캑캔캘캠캡캣캤캥캬캭컁커컥컨컫컬컴컵컷컸컹케켁켄켈켐켑켓켕켜켠켤켬켭켯켰켱켸코콕콘콜콤콥콧콩콰콱콴콸쾀쾅쾌쾡쾨쾰쿄쿠쿡쿤쿨쿰쿱쿳쿵쿼퀀퀄퀑퀘퀭퀴퀵퀸퀼큄큅큇큉큐큔큘큠크큭큰클큼큽킁키킥킨킬킴킵킷킹타탁탄탈탉탐탑탓탔탕태택탠탤탬탭탯탰탱탸턍터턱턴털턺텀텁텃텄텅테텍텐텔템텝텟텡텨텬텼톄톈토톡톤톨톰톱톳통톺톼퇀퇘퇴퇸툇툉툐투툭툰툴툼툽툿퉁퉈퉜퉤튀튁튄튈튐튑튕튜튠튤튬튱트특튼튿틀틂틈틉틋틔틘틜틤틥티틱틴틸팀팁팃팅파팍팎판팔팖팜팝팟팠팡팥패팩팬팰팸팹팻팼팽퍄퍅퍼퍽펀펄펌펍펏펐펑페펙펜펠펨펩펫펭펴편펼폄폅폈평폐폘폡폣포폭폰폴폼폽폿퐁퐈퐝푀푄표푠푤푭푯푸푹푼푿풀풂품풉풋풍풔풩퓌퓐퓔퓜퓟퓨퓬퓰퓸퓻퓽프픈플픔픕픗피픽핀필핌핍핏핑하학한할핥함합핫항해핵핸핼햄햅햇했행햐향허헉헌헐헒험헙헛헝헤헥헨헬헴헵헷헹혀혁현혈혐협혓혔형혜혠혤혭호혹혼홀홅홈홉홋홍홑화확환활홧황홰홱홴횃횅회획횐횔횝횟횡효횬횰횹횻후훅훈훌훑훔훗훙훠훤훨훰훵훼훽휀휄휑휘휙휜휠휨휩휫휭휴휵휸휼흄흇흉흐흑흔흖흗흘흙흠흡흣흥흩희흰흴흼흽힁히힉힌힐힘힙힛힝</xsl:variable>
+
   <xsl:template mode="style:style" match="Style">
     <xsl:element name="style:style">
-      <xsl:attribute name="style:name">
+      <xsl:variable name="style-name">
         <xsl:apply-templates mode="make-style-name" select="." />
+      </xsl:variable>
+      <xsl:attribute name="style:name">
+        <xsl:value-of select="$style-name" />
       </xsl:attribute>
+      <xsl:if test="starts-with($style-name, 'Style-')">
+        <xsl:attribute name="style:display-name">
+          <xsl:value-of select="@local-name" />
+        </xsl:attribute>
+      </xsl:if>
       <!--
       <xsl:attribute name="style:parent-style-name"/>
       -->
-- 
2.43.0


From 8da9b355e57891022894802aedcf0b44d728c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 76/97] fix: odt: keep consecutive spaces

---
 src/hwp5/xsl/odt/common.xsl | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 00f2e85..e4693e1 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -979,10 +979,44 @@
       <xsl:if test="$style-charshape-id != $charshape-id">
         <xsl:attribute name="text:style-name"><xsl:value-of select="$style-name-prefix"/>-<xsl:value-of select="$text-pos"/></xsl:attribute>
       </xsl:if>
-      <xsl:value-of select="text()"/>
+      <xsl:call-template name="text-with-spaces">
+        <xsl:with-param name="str" select="text()"/>
+        <xsl:with-param name="prev">
+          <xsl:variable name="before" select="(preceding-sibling::*[1]|../preceding-sibling::LineSeg[1]/*[last()][not(current()/preceding-sibling::*)])[self::Text]"/>
+          <xsl:value-of select="substring($before, string-length($before))"/>
+        </xsl:with-param>
+      </xsl:call-template>
     </xsl:element>
   </xsl:template>
 
+  <!-- text in which no space is collapsed: a space next to another one is a
+       text:s -->
+  <xsl:template name="text-with-spaces">
+    <xsl:param name="str"/>
+    <xsl:param name="prev"/>
+    <xsl:variable name="length" select="string-length($str)"/>
+    <xsl:variable name="half" select="floor($length div 2)"/>
+    <xsl:choose>
+      <xsl:when test="not(contains(concat($prev, $str), '  '))">
+        <xsl:value-of select="$str"/>
+      </xsl:when>
+      <xsl:when test="$str = ' '"><text:s/></xsl:when>
+      <xsl:when test="$length &lt; 2">
+        <xsl:value-of select="$str"/>
+      </xsl:when>
+      <xsl:otherwise>
+        <xsl:call-template name="text-with-spaces">
+          <xsl:with-param name="str" select="substring($str, 1, $half)"/>
+          <xsl:with-param name="prev" select="$prev"/>
+        </xsl:call-template>
+        <xsl:call-template name="text-with-spaces">
+          <xsl:with-param name="str" select="substring($str, $half + 1)"/>
+          <xsl:with-param name="prev" select="substring($str, $half, 1)"/>
+        </xsl:call-template>
+      </xsl:otherwise>
+    </xsl:choose>
+  </xsl:template>
+
   <xsl:template match="ControlChar"></xsl:template>
 
   <xsl:template match="ControlChar[@name = 'TAB']"><text:tab/></xsl:template>
-- 
2.43.0


From e31d3e06afaf200fd6c25d2c29caf424ab2682aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 77/97] fix: odt: keep spaces at the start of paragraphs

---
 src/hwp5/xsl/odt/common.xsl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index e4693e1..4a6be77 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -984,6 +984,7 @@
         <xsl:with-param name="prev">
           <xsl:variable name="before" select="(preceding-sibling::*[1]|../preceding-sibling::LineSeg[1]/*[last()][not(current()/preceding-sibling::*)])[self::Text]"/>
           <xsl:value-of select="substring($before, string-length($before))"/>
+          <xsl:if test="starts-with(text(), ' ') and not(preceding-sibling::Text or ../preceding-sibling::LineSeg/Text)"><xsl:text> </xsl:text></xsl:if>
         </xsl:with-param>
       </xsl:call-template>
     </xsl:element>
-- 
2.43.0


From b9bef8ee2fd2a78bee4a4317b97b29c361b62a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:11 +0000
Subject: [PATCH 78/97] fix: html: classes of styles whose names are not CSS
 identifiers or not unique

---
 src/hwp5/xsl/hwp5css-common.xsl | 25 ++++++++++++++++++++++++-
 src/hwp5/xsl/hwp5html.xsl       |  6 +-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index 8a0f899..ee8aaf3 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -21,10 +21,33 @@
         <xsl:apply-templates select="Bullet" mode="css-rule" />
     </xsl:template>
 
+    <!-- the class of a style: its name, or Style-N if that can not be the name
+         of a class or is the one of something else -->
+    <xsl:template match="Style" mode="style-class">
+        <xsl:variable name="name" select="translate(@name, ' ', '-')" />
+        <xsl:choose>
+            <xsl:when test="$name = '' or translate($name, $class-chars-prohibited, '') != $name
+                            or contains('-0123456789', substring($name, 1, 1))
+                            or contains($class-names-reserved, concat(' ', $name, ' '))
+                            or contains($class-prefixes-reserved, concat(' ', substring-before($name, '-'), '- '))
+                            or preceding-sibling::Style[translate(@name, ' ', '-') = $name]">
+                <xsl:text>Style-</xsl:text>
+                <xsl:value-of select="count(preceding-sibling::Style) + 1" />
+            </xsl:when>
+            <xsl:otherwise>
+                <xsl:value-of select="$name" />
+            </xsl:otherwise>
+        </xsl:choose>
+    </xsl:template>
+
+    <xsl:variable name="class-chars-prohibited">!"#$%&amp;'()*+,./:;&lt;=&gt;?@[\]^`{|}~&#9;&#10;&#13;&#127;</xsl:variable>
+    <xsl:variable name="class-names-reserved"> Section Paper Page HeaderPageFooter HeaderArea FooterArea FootNote EndNote TableControl TableCaption GShapeObjectControl autonumbering </xsl:variable>
+    <xsl:variable name="class-prefixes-reserved"> Style- Section- Bullet- parashape- charshape- borderfill- lang- autonumbering- </xsl:variable>
+
     <xsl:template match="Style" mode="css-rule">
         <xsl:variable name="paragraph-selector">
             <xsl:text>.</xsl:text>
-            <xsl:value-of select="translate(@name, ' ', '-')"/>
+            <xsl:apply-templates select="." mode="style-class" />
         </xsl:variable>
         <xsl:variable name="spans-selector">
             <xsl:value-of select="$paragraph-selector" />
diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 676513f..7f41805 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -108,12 +108,10 @@
     <xsl:element name="p">
       <xsl:variable name="styleid" select="@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
-      <xsl:variable name="stylename" select="$style/@name" />
-      <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
       <xsl:variable name="parashape_pos" select="number(@parashape-id) + 1" />
       <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
       <xsl:attribute name="class">
-        <xsl:value-of select="$stylencname" />
+        <xsl:apply-templates select="$style" mode="style-class" />
         <xsl:choose>
           <xsl:when test="$style/@parashape-id = @parashape-id">
             <xsl:apply-templates select="$style" mode="add-class-bullet" />
@@ -161,8 +159,6 @@
     <xsl:element name="span">
       <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
-      <xsl:variable name="stylename" select="$style/@name" />
-      <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
       <xsl:attribute name="class">
         <xsl:text>lang-</xsl:text>
         <xsl:value-of select="@lang" />
-- 
2.43.0


From b536395aa3b77fec600690ab529f3d3874359e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:16 +0000
Subject: [PATCH 79/97] fix: html: positions of objects which are in other
 objects

---
 src/hwp5/xsl/hwp5html.xsl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 7f41805..ed8c460 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -455,9 +455,7 @@
     <xsl:variable name="paragraph" select="ancestor::Paragraph[1]" />
     <xsl:variable name="parashape_pos" select="number($paragraph/@parashape-id) + 1" />
     <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
-    <xsl:variable name="columnset" select="$paragraph/.." />
-    <xsl:variable name="section" select="$columnset/.." />
-    <xsl:variable name="pagedef" select="$section/PageDef" />
+    <xsl:variable name="pagedef" select="ancestor::SectionDef[1]/PageDef" />
     <xsl:text>/*</xsl:text>
     <xsl:text> hrelto: </xsl:text>
     <xsl:value-of select="@hrelto" />
-- 
2.43.0


From d9757069ce97c54411d10c57c82466ce6e6a355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:16 +0000
Subject: [PATCH 80/97] fix: html: style of borders with long dashes

---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index ee8aaf3..abbf03f 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -464,7 +464,7 @@
             <xsl:when test="@stroke-type = 'dotted'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot-dot'">dashed</xsl:when>
-            <xsl:when test="@stroke-type = 'long-dash'">dahsed</xsl:when>
+            <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'double'">double</xsl:when>
             <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
-- 
2.43.0


From 61eb6466ea7050e1468dc301ca100352ae9e0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:37 +0000
Subject: [PATCH 81/97] fix: html: names of fonts and bullets with quotes,
 backslashes or newlines

---
 src/hwp5/xsl/hwp5css-common.xsl | 44 ++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index abbf03f..73f40f8 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -174,9 +174,9 @@
                 <xsl:call-template name="css-declaration">
                     <xsl:with-param name="property">content</xsl:with-param>
                     <xsl:with-param name="value">
-                        <xsl:text>"</xsl:text>
-                        <xsl:value-of select="@char" />
-                        <xsl:text>"</xsl:text>
+                        <xsl:call-template name="css-string">
+                            <xsl:with-param name="string" select="@char" />
+                        </xsl:call-template>
                     </xsl:with-param>
                 </xsl:call-template>
                 <xsl:call-template name="css-declaration">
@@ -359,9 +359,9 @@
     </xsl:template>
 
     <xsl:template match="FaceName" mode="font-family-value">
-        <xsl:text>"</xsl:text>
-        <xsl:value-of select="@name" />
-        <xsl:text>"</xsl:text>
+        <xsl:call-template name="css-string">
+            <xsl:with-param name="string" select="@name" />
+        </xsl:call-template>
     </xsl:template>
 
     <xsl:template match="FaceName" mode="font-family-generic-value">
@@ -1009,6 +1009,38 @@
         <xsl:text>pt</xsl:text>
     </xsl:template>
 
+    <xsl:template name="css-string">
+        <xsl:param name="string" />
+        <xsl:text>"</xsl:text>
+        <xsl:call-template name="css-string-chars">
+            <xsl:with-param name="string" select="$string" />
+        </xsl:call-template>
+        <xsl:text>"</xsl:text>
+    </xsl:template>
+
+    <xsl:template name="css-string-chars">
+        <xsl:param name="string" />
+        <xsl:variable name="char" select="substring($string, 1, 1)" />
+        <xsl:choose>
+            <xsl:when test="translate($string, '&quot;\&#10;&#13;', '') = $string">
+                <xsl:value-of select="$string" />
+            </xsl:when>
+            <xsl:otherwise>
+                <xsl:choose>
+                    <xsl:when test="$char = '&#10;'">\a </xsl:when>
+                    <xsl:when test="$char = '&#13;'">\d </xsl:when>
+                    <xsl:otherwise>
+                        <xsl:if test="$char = '&quot;' or $char = '\'">\</xsl:if>
+                        <xsl:value-of select="$char" />
+                    </xsl:otherwise>
+                </xsl:choose>
+                <xsl:call-template name="css-string-chars">
+                    <xsl:with-param name="string" select="substring($string, 2)" />
+                </xsl:call-template>
+            </xsl:otherwise>
+        </xsl:choose>
+    </xsl:template>
+
     <xsl:template name="css-rule">
         <xsl:param name="selector" />
         <xsl:param name="declarations" />
-- 
2.43.0


From dfe8084428fa973d32896f9fb3f6c65e22d4dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 82/97] fix: html: looks of text whose shape unsets what its
 style sets

---
 src/hwp5/xsl/hwp5css-common.xsl | 61 ++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index 73f40f8..cfcfc72 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -10,6 +10,9 @@
     <xsl:variable name="facenamebasesy" select="$facenamebaseot + //IdMappings/@other-fonts" />
     <xsl:variable name="facenamebaseus" select="$facenamebasesy + //IdMappings/@symbol-fonts" />
 
+    <!-- what is set by a style is to be unset by the others -->
+    <xsl:variable name="charshapes-of-styles" select="//CharShape[count(preceding-sibling::CharShape) = //Style/@charshape-id]" />
+
     <xsl:template match="IdMappings" mode="css-rule">
         <xsl:text>/* Styles */&#10;</xsl:text>
         <xsl:apply-templates select="Style" mode="css-rule" />
@@ -146,6 +149,12 @@
                     </xsl:with-param>
                 </xsl:call-template>
             </xsl:when>
+            <xsl:otherwise>
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">min-height</xsl:with-param>
+                    <xsl:with-param name="value">0</xsl:with-param>
+                </xsl:call-template>
+            </xsl:otherwise>
         </xsl:choose>
     </xsl:template>
 
@@ -159,6 +168,12 @@
                     </xsl:with-param>
                 </xsl:call-template>
             </xsl:when>
+            <xsl:otherwise>
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">line-height</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:otherwise>
         </xsl:choose>
     </xsl:template>
 
@@ -309,19 +324,35 @@
             <xsl:with-param name="value"><xsl:value-of select="@text-color" /></xsl:with-param>
         </xsl:call-template>
 
-        <xsl:if test="@italic = 1">
-            <xsl:call-template name="css-declaration">
-                <xsl:with-param name="property">font-style</xsl:with-param>
-                <xsl:with-param name="value">italic</xsl:with-param>
-            </xsl:call-template>
-        </xsl:if>
+        <xsl:choose>
+            <xsl:when test="@italic = 1">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-style</xsl:with-param>
+                    <xsl:with-param name="value">italic</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+            <xsl:when test="$charshapes-of-styles[@italic = 1]">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-style</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+        </xsl:choose>
 
-        <xsl:if test="@bold = 1">
-            <xsl:call-template name="css-declaration">
-                <xsl:with-param name="property">font-weight</xsl:with-param>
-                <xsl:with-param name="value">bold</xsl:with-param>
-            </xsl:call-template>
-        </xsl:if>
+        <xsl:choose>
+            <xsl:when test="@bold = 1">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-weight</xsl:with-param>
+                    <xsl:with-param name="value">bold</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+            <xsl:when test="$charshapes-of-styles[@bold = 1]">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-weight</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+        </xsl:choose>
 
         <xsl:apply-templates select="." mode="text-decoration" />
     </xsl:template>
@@ -932,6 +963,12 @@
                 <xsl:apply-templates select="." mode="text-decoration-color" />
                 <xsl:apply-templates select="." mode="text-decoration-style" />
             </xsl:when>
+            <xsl:when test="$charshapes-of-styles[@underline != 'none']">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">text-decoration</xsl:with-param>
+                    <xsl:with-param name="value">none</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
         </xsl:choose>
     </xsl:template>
 
-- 
2.43.0


From 6f0ef2bc65e9498fdf42452c7179e11d5bc1b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:43 +0000
Subject: [PATCH 83/97] fix: odt: keep spaces next to spaces across tables,
 notes and fields

---
 src/hwp5/xsl/odt/common.xsl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 4a6be77..1071480 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -982,9 +982,12 @@
       <xsl:call-template name="text-with-spaces">
         <xsl:with-param name="str" select="text()"/>
         <xsl:with-param name="prev">
-          <xsl:variable name="before" select="(preceding-sibling::*[1]|../preceding-sibling::LineSeg[1]/*[last()][not(current()/preceding-sibling::*)])[self::Text]"/>
-          <xsl:value-of select="substring($before, string-length($before))"/>
-          <xsl:if test="starts-with(text(), ' ') and not(preceding-sibling::Text or ../preceding-sibling::LineSeg/Text)"><xsl:text> </xsl:text></xsl:if>
+          <!-- what comes before it in the paragraph; nothing is a space, too -->
+          <xsl:if test="starts-with(text(), ' ')">
+            <xsl:variable name="depth" select="count(ancestor::Paragraph)"/>
+            <xsl:variable name="before" select="(ancestor-or-self::*[count(ancestor::Paragraph) = $depth]/preceding-sibling::*/descendant-or-self::Text[count(ancestor::Paragraph) = $depth])[last()]"/>
+            <xsl:value-of select="substring(concat(' ', $before), string-length($before) + 1)"/>
+          </xsl:if>
         </xsl:with-param>
       </xsl:call-template>
     </xsl:element>
-- 
2.43.0


From 316cb558e038b8af4a48429cde9209810b6f648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 84/97] fix: hwp5proc records: do not need the standard input
 to read a file

It failed when started without a standard input, although the records
are those of a file.
---
 src/hwp5/proc/records.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index cf257e4..a99dfa5 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -34,11 +34,9 @@ PY2 = sys.version_info.major == 2
 
 def main(args):
     if PY2:
-        stdin_binary = sys.stdin
         stdout_text = sys.stdout
         stdout_binary = sys.stdout
     else:
-        stdin_binary = sys.stdin.buffer
         stdout_text = sys.stdout
         stdout_binary = sys.stdout.buffer
 
@@ -49,6 +47,7 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
+        stdin_binary = sys.stdin if PY2 else sys.stdin.buffer
         stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
-- 
2.43.0


From 4ca4933e50499c41109240441512ae9019768d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 85/97] fix: hwp5html.xsl: the width of a landscape paper is
 its height

---
 src/hwp5/xsl/hwp5html.xsl | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index ed8c460..f0913e4 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -456,6 +456,16 @@
     <xsl:variable name="parashape_pos" select="number($paragraph/@parashape-id) + 1" />
     <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
     <xsl:variable name="pagedef" select="ancestor::SectionDef[1]/PageDef" />
+    <xsl:variable name="paper-width">
+      <xsl:choose>
+        <xsl:when test="$pagedef/@orientation = 'landscape'">
+          <xsl:value-of select="$pagedef/@height" />
+        </xsl:when>
+        <xsl:otherwise>
+          <xsl:value-of select="$pagedef/@width" />
+        </xsl:otherwise>
+      </xsl:choose>
+    </xsl:variable>
     <xsl:text>/*</xsl:text>
     <xsl:text> hrelto: </xsl:text>
     <xsl:value-of select="@hrelto" />
@@ -491,7 +501,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset - $parashape/@doubled-margin-right div 2
                     - @x
                     - @margin-right - @width
@@ -514,7 +524,7 @@
                   + (문단 왼쪽 여백)                              : 문단 x 축에서 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     + $parashape/@doubled-margin-left div 2
@@ -553,7 +563,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset
                     - @x
                     - @margin-right - @width
@@ -575,7 +585,7 @@
                   + (@x)                             : x만큼 오른쪽
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     " />
@@ -613,7 +623,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset
                     - @x
                     - @margin-right - @width
@@ -635,7 +645,7 @@
                   + (@x)                             : x만큼 오른쪽
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     " />
@@ -672,7 +682,7 @@
                   - (쪽 왼쪽 여백)                   : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - @x
                     - @margin-right - @width
                     - $pagedef/@left-offset
@@ -694,7 +704,7 @@
                   - (쪽 왼쪽 여백)                   : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width div 2
+                    $paper-width div 2
                     - @width div 2
                     + @x
                     - $pagedef/@left-offset
-- 
2.43.0


From 8d7aa61a82394e3e8817a6ed20ef2586ae32ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 86/97] fix: hwp5html.xsl: center a control between both
 margins of its paragraph

---
 src/hwp5/xsl/hwp5html.xsl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index f0913e4..24ef7c4 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -524,7 +524,9 @@
                   + (문단 왼쪽 여백)                              : 문단 x 축에서 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset
+                     - $parashape/@doubled-margin-left div 2
+                     - $parashape/@doubled-margin-right div 2) div 2
                     - @width div 2
                     + @x
                     + $parashape/@doubled-margin-left div 2
-- 
2.43.0


From a60b97b759d72dfad87fb610d9fb1bbe642dc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 87/97] fix: hwp5odt: a section starts its master page even if
 its paragraph looks like its style

---
 src/hwp5/xsl/odt/common.xsl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 1071480..cb403d4 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -814,7 +814,7 @@
     <xsl:variable name="style-parashape-id" select="$style/@parashape-id + 1"/>
     <xsl:variable name="parashape-id" select="@parashape-id + 1"/>
     <xsl:variable name="parashape" select="//ParaShape[$parashape-id]"/>
-    <xsl:if test="$style-parashape-id != $parashape-id or @new-page = '1'">
+    <xsl:if test="$style-parashape-id != $parashape-id or @new-page = '1' or @new-section = '1'">
       <xsl:element name="style:style">
         <xsl:attribute name="style:family">paragraph</xsl:attribute>
         <xsl:attribute name="style:class">text</xsl:attribute>
@@ -824,7 +824,7 @@
         </xsl:attribute>
         <xsl:apply-templates mode="style:parent-style-name" select="$style" />
         <xsl:if test="@new-section = '1'">
-          <xsl:apply-templates mode="style:master-page-name" select="../.." />
+          <xsl:apply-templates mode="style:master-page-name" select="ancestor::SectionDef[1]" />
         </xsl:if>
 	<xsl:apply-templates mode="style:paragraph-properties" select="." />
       </xsl:element>
@@ -931,7 +931,7 @@
         <xsl:variable name="parashapes" select="/HwpDoc/DocInfo/IdMappings/ParaShape" />
         <xsl:variable name="parashape" select="$parashapes[number($parashape-id)]"/>
         <xsl:choose>
-          <xsl:when test="$style-parashape-id != $parashape-id or @new-page='1'">
+          <xsl:when test="$style-parashape-id != $parashape-id or @new-page='1' or @new-section='1'">
             <xsl:attribute name="text:style-name">Paragraph-<xsl:value-of select="@paragraph-id + 1"/></xsl:attribute>
           </xsl:when>
           <xsl:otherwise>
-- 
2.43.0


From 83bd6b395b32a0db079c39fd8185b44261acc005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 88/97] fix: hwp5odt: texts undo italic and bold of the style
 they are in

---
 src/hwp5/xsl/odt/common.xsl | 102 +++++++++++++++++++++++++++---------
 1 file changed, 77 insertions(+), 25 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index cb403d4..feddb80 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -558,6 +558,8 @@
   </xsl:template>
 
   <xsl:template mode="style:text-properties" match="CharShape">
+    <!-- the shape of what it is in, whose italic and bold it has to undo -->
+    <xsl:param name="within" select="/.." />
     <xsl:element name="style:text-properties">
 
       <xsl:apply-templates mode="style:font-name" select="FontFace" />
@@ -568,9 +570,15 @@
       <xsl:apply-templates mode="style:font-size-complex" select="." />
 
       <!-- 15.4.25 Font Style -->
-      <xsl:apply-templates mode="fo:font-style" select="." />
-      <xsl:apply-templates mode="style:font-style-asian" select="." />
-      <xsl:apply-templates mode="style:font-style-complex" select="." />
+      <xsl:apply-templates mode="fo:font-style" select=".">
+        <xsl:with-param name="within" select="$within" />
+      </xsl:apply-templates>
+      <xsl:apply-templates mode="style:font-style-asian" select=".">
+        <xsl:with-param name="within" select="$within" />
+      </xsl:apply-templates>
+      <xsl:apply-templates mode="style:font-style-complex" select=".">
+        <xsl:with-param name="within" select="$within" />
+      </xsl:apply-templates>
 
       <!-- 15.4.28 Underlining Type -->
       <!-- 15.4.31 Underline Color -->
@@ -578,9 +586,15 @@
       <xsl:apply-templates mode="style:text-overline" select="." />
       <xsl:apply-templates mode="style:text-line-through" select="." />
       <!-- 15.4.32 Font Weight -->
-      <xsl:apply-templates mode="fo:font-weight" select="." />
-      <xsl:apply-templates mode="style:font-weight-asian" select="." />
-      <xsl:apply-templates mode="style:font-weight-complex" select="." />
+      <xsl:apply-templates mode="fo:font-weight" select=".">
+        <xsl:with-param name="within" select="$within" />
+      </xsl:apply-templates>
+      <xsl:apply-templates mode="style:font-weight-asian" select=".">
+        <xsl:with-param name="within" select="$within" />
+      </xsl:apply-templates>
+      <xsl:apply-templates mode="style:font-weight-complex" select=".">
+        <xsl:with-param name="within" select="$within" />
+      </xsl:apply-templates>
     </xsl:element>
   </xsl:template>
 
@@ -628,39 +642,75 @@
   </xsl:template>
 
   <xsl:template mode="fo:font-style" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="fo:font-style">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:param name="within" select="/.." />
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="fo:font-style">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$within/@italic = 1">
+        <xsl:attribute name="fo:font-style">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-style-asian" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="style:font-style-asian">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:param name="within" select="/.." />
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="style:font-style-asian">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$within/@italic = 1">
+        <xsl:attribute name="style:font-style-asian">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-style-complex" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="style:font-style-complex">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:param name="within" select="/.." />
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="style:font-style-complex">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$within/@italic = 1">
+        <xsl:attribute name="style:font-style-complex">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="fo:font-weight" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="fo:font-weight">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:param name="within" select="/.." />
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="fo:font-weight">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$within/@bold = 1">
+        <xsl:attribute name="fo:font-weight">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-weight-asian" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="style:font-weight-asian">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:param name="within" select="/.." />
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="style:font-weight-asian">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$within/@bold = 1">
+        <xsl:attribute name="style:font-weight-asian">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-weight-complex" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="style:font-weight-complex">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:param name="within" select="/.." />
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="style:font-weight-complex">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="$within/@bold = 1">
+        <xsl:attribute name="style:font-weight-complex">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:text-xxxline-style-value" match="CharShape">
@@ -802,7 +852,9 @@
         <xsl:attribute name="style:name">
           <xsl:value-of select="$style-name" />
         </xsl:attribute>
-        <xsl:apply-templates select="//CharShape[$charshape-id]" mode="style:text-properties" />
+        <xsl:apply-templates select="//CharShape[$charshape-id]" mode="style:text-properties">
+          <xsl:with-param name="within" select="//CharShape[$style-charshape-id]" />
+        </xsl:apply-templates>
       </xsl:element>
     </xsl:if>
   </xsl:template>
-- 
2.43.0


From 7527ae414b3b2e597da156ffb04469c98262e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 89/97] fix: hwp5odt: borders have styles which fo:border has

---
 src/hwp5/xsl/odt/common.xsl | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index feddb80..bda7b41 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1286,7 +1286,21 @@
   </xsl:template>
 
   <xsl:template mode="fo-border-style-value" match="Border">
-    <xsl:value-of select="@stroke-type" />
+    <!-- the nearest of the styles which fo:border has -->
+    <xsl:choose>
+      <xsl:when test="@stroke-type = 'dash-dot'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'dash-dot-dot'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
+      <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'double-3'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'triple'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'wave'">solid</xsl:when>
+      <xsl:when test="@stroke-type = 'double-wave'">double</xsl:when>
+      <xsl:otherwise>
+        <xsl:value-of select="@stroke-type" />
+      </xsl:otherwise>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:style" match="TableControl">
-- 
2.43.0


From 8908034327ab1bbd12a05b40b845beead11455bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 90/97] fix: hwp5odt: a table without width has no style:width

---
 src/hwp5/xsl/odt/common.xsl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index bda7b41..78213c2 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1312,7 +1312,11 @@
 	<xsl:choose>
 	  <xsl:when test="@width-relto = 'absolute'">
 	    <!-- 15.8.1 Table Width -->
-	    <xsl:attribute name="style:width"><xsl:value-of select="round(@width div 7200 * 2.54 * 10 * 100) div 100"/>mm</xsl:attribute>
+	    <xsl:variable name="width" select="round(@width div 7200 * 2.54 * 10 * 100) div 100"/>
+	    <!-- a positive length -->
+	    <xsl:if test="$width &gt; 0">
+	      <xsl:attribute name="style:width"><xsl:value-of select="$width"/>mm</xsl:attribute>
+	    </xsl:if>
 	    <!-- 15.8.2 Table Alignment -->
 	    <xsl:attribute name="table:align">margins</xsl:attribute>
 	    <!-- 15.8.3 Table Left and Right Margin -->
-- 
2.43.0


From 8874abd06180faf7435b5b7e05b74f6d0236f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:04 +0000
Subject: [PATCH 91/97] fix: hwp5odt: paragraphs undo the fixed line spacing of
 their style

---
 src/hwp5/xsl/odt/common.xsl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 78213c2..3b38d8b 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -951,6 +951,11 @@
     <xsl:variable name="parashape" select="//ParaShape[$parashape-id]"/>
     <xsl:element name="style:paragraph-properties">
       <xsl:apply-templates mode="style-paragraph-properties-common" select="$parashape" />
+      <xsl:variable name="style-id" select="@style-id + 1" />
+      <xsl:variable name="style-parashape-id" select="//Style[$style-id]/@parashape-id + 1"/>
+      <xsl:if test="//ParaShape[$style-parashape-id]/@linespacing-type = 'fixed' and $parashape/@linespacing-type != 'fixed'">
+        <xsl:attribute name="style:vertical-align">auto</xsl:attribute>
+      </xsl:if>
       <xsl:if test="@new-page = '1'">
 	<xsl:attribute name="fo:break-before">page</xsl:attribute>
       </xsl:if>
-- 
2.43.0


From 92c594cf3d2293bde1e5270550cd0c3260831450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:59 +0000
Subject: [PATCH 92/97] fix: flat XML dump: sections in numeric order, ViewText
 of distribution documents

---
 src/hwp5/xmldump_flat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index f24a64a..fd52f73 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -76,8 +76,9 @@ def xmlevents_from_hwp5file(hwp5file):
         yield x
     yield ENDEVENT, 'DocInfo'
 
-    for section_name in hwp5file.bodytext:
-        section = hwp5file.bodytext[section_name]
+    for section_idx in hwp5file.text.section_indexes():
+        section_name = 'Section%d' % section_idx
+        section = hwp5file.text.section(section_idx)
         yield STARTEVENT, ('Section', {
             'name': section_name
         })
-- 
2.43.0


From 5b43c9b7f6b183010421de3138d9ccac4e3e750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 93/97] fix: hwp5view: pathname2url is in urllib.request on
 Python 3

---
 src/hwp5/hwp5view.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/hwp5view.py b/src/hwp5/hwp5view.py
index 9458dfa..0ed3bdb 100644
--- a/src/hwp5/hwp5view.py
+++ b/src/hwp5/hwp5view.py
@@ -44,7 +44,6 @@ import logging
 import os.path
 import shutil
 import sys
-import urllib
 
 from . import __version__ as version
 from .cli import init_logger
@@ -53,6 +52,10 @@ from .hwp5html import HTMLTransform
 
 
 PY3 = sys.version_info.major == 3
+if PY3:
+    from urllib.request import pathname2url
+else:
+    from urllib import pathname2url
 logger = logging.getLogger(__name__)
 locale_dir = os.path.join(os.path.dirname(__file__), 'locale')
 locale_dir = os.path.abspath(locale_dir)
@@ -233,4 +236,4 @@ def hwp5html(filename, out_dir):
 
 def fspath2url(path):
     path = os.path.abspath(path)
-    return 'file://' + urllib.pathname2url(path)
+    return 'file://' + pathname2url(path)
-- 
2.43.0


From c3b360116a7bafec72b97d709755a502b41f1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 94/97] fix: libgsf back end: xrange does not exist on Python 3

---
 src/hwp5/plat/gir_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..857f71f 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
-- 
2.43.0


From f9a167229014c481be563a96d8f0591bec3a6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 95/97] fix: UNO back end: streams are read as bytes

---
 src/hwp5/plat/_uno/adapters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/_uno/adapters.py b/src/hwp5/plat/_uno/adapters.py
index 9c78ff9..24fdbd4 100644
--- a/src/hwp5/plat/_uno/adapters.py
+++ b/src/hwp5/plat/_uno/adapters.py
@@ -100,14 +100,14 @@ class FileFromStream(object):
         if hasattr(stream, 'readBytes'):
             def read(size=None):
                 if size is None:
-                    data = ''
+                    data = b''
                     while True:
-                        bytes = uno.ByteSequence('')
+                        bytes = uno.ByteSequence(b'')
                         n_read, bytes = stream.readBytes(bytes, 4096)
                         if n_read == 0:
                             return data
                         data += bytes.value
-                bytes = uno.ByteSequence('')
+                bytes = uno.ByteSequence(b'')
                 n_read, bytes = stream.readBytes(bytes, size)
                 return bytes.value
             self.read = read
-- 
2.43.0


From f6748ad78331abe133f9122d4b47e0e3de03d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 96/97] fix: POIFS back end: seek from the current position
 backwards and from the end

---
 src/hwp5/plat/jython_poifs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/plat/jython_poifs.py b/src/hwp5/plat/jython_poifs.py
index a85e374..fec55ac 100644
--- a/src/hwp5/plat/jython_poifs.py
+++ b/src/hwp5/plat/jython_poifs.py
@@ -124,15 +124,15 @@ class FileFromDocumentInputStream(object):
     def seek(self, offset, whence=0):
         dis = self.dis
         if whence == 0:
-            dis.reset()
-            dis.skip(offset)
+            pass
         elif whence == 1:
-            dis.skip(offset)
+            offset += self.tell()
         elif whence == 2:
-            dis.reset()
-            dis.skip(self.size - offset)
+            offset += self.size
         else:
             raise ValueError('invalid whence: %s', whence)
+        dis.reset()
+        dis.skip(offset)
 
     def tell(self):
         return self.size - self.dis.available()
-- 
2.43.0


From 7519dadb1d8009b7b0fb72baeacdd413a71dc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:47 +0000
Subject: [PATCH 97/97] fix: xsltproc: output file names are not URLs

---
 src/hwp5/plat/xsltproc.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 179c170..c63acb8 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -21,6 +21,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from subprocess import CalledProcessError
 from subprocess import Popen
+import io
 import logging
 import subprocess
 
@@ -80,13 +81,9 @@ class XSLT:
         '''
         >>> T.transform('input.xml', 'output.xml')
         '''
-        cmd = self.cmd + ['-o', output, self.xsl_path, input]
-        logger.info('%r', cmd)
-        p = Popen(cmd)
-        p.wait()
-        if p.returncode != 0:
-            raise CalledProcessError(p.returncode, cmd)
-        return dict()
+        # xsltproc -o takes its argument as a URL
+        with io.open(output, 'wb') as f:
+            return self.transform_into_stream(input, f)
 
     def transform_into_stream(self, input, output):
         '''
-- 
2.43.0

