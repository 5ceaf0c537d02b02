From ff0de935d471e537aececb58215fd5f510322bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 01/82] fix: color_break lookahead must ignore the flag bits of
 the following stitches

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..acfca04 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -379,7 +379,7 @@ class Transcoder:
         source = self.source_pattern.stitches
         for pos in range(self.position, len(source)):
             stitch = source[pos]
-            flags = stitch[2]
+            flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 return True
             elif flags == NEEDLE_AT:
-- 
2.43.0


From 24b0a764fd6b00c8c4eb5741c5c7b03dac612908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 02/82] fix: tie-on and tie-off must ignore flag bits and never
 lock towards the last stitch from position 0

---
 pyembroidery/EmbEncoder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index acfca04..d23d9d9 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -425,11 +425,13 @@ class Transcoder:
 
     def tie_off(self):
         if self.tie_off_contingency == CONTINGENCY_TIE_OFF_THREE_SMALL:
+            if self.position == 0:
+                return  # there is no previous stitch to lock towards.
             try:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
@@ -448,7 +450,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position + 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
-- 
2.43.0


From 1e582aaf525e60962f0c44f05159691c4206336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 03/82] fix: default threads and needles follow the order of
 the changes, not of their SET_CHANGE_SEQUENCE commands

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index d23d9d9..475eeee 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -166,7 +166,7 @@ class Transcoder:
         needle_limit = self.needle_count
         thread_index = 0
         needle_index = 1
-        for order, s in change_sequence.items():
+        for order, s in sorted(change_sequence.items()):
             if s[0] is None:
                 s[0] = self.thread_change_command
             if s[1] is None:
-- 
2.43.0


From fc18fc79bf4d4d1eccf4d37603f9baaac59a8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 04/82] fix: an ignored leading color break must not consume an
 entry of the change sequence

---
 pyembroidery/EmbEncoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 475eeee..ed560de 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -118,7 +118,9 @@ class Transcoder:
                 yield flags, thread, needle, order, None
             elif flags == NEEDLE_SET or flags == COLOR_CHANGE or flags == COLOR_BREAK:
                 yield flags, thread, needle, order, current_index
-                current_index += 1
+                if flags != COLOR_BREAK or current_index != 0:
+                    # a color break before the start of sewing is ignored.
+                    current_index += 1
 
     def build_thread_change_sequence(self):
         """Builds a change sequence to plan out all the color changes for the file."""
-- 
2.43.0


From 7eff82c7db50f520f9c56fc8baa11218089aa4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 05/82] fix: DST has no speed records, do not write SLOW and
 FAST as extra stitches

---
 pyembroidery/DstWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0084404..3dfba20 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -4,6 +4,7 @@ from .WriteHelper import write_string_utf8
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_UTILIZE
 FULL_JUMP = False
 ROUND = True
+WRITES_SPEEDS = False
 MAX_JUMP_DISTANCE = 121
 MAX_STITCH_DISTANCE = 121
 
-- 
2.43.0


From d1ced40a2222b16a3fe4470d272e57aa51f66bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 06/82] fix: DST header fields must never overflow the 512 byte
 header

---
 pyembroidery/DstWriter.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 3dfba20..a1e7d97 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -10,6 +10,7 @@ MAX_STITCH_DISTANCE = 121
 
 PPMM = 10
 DSTHEADERSIZE = 512
+MAX_NAME_BYTES = 256
 
 
 def bit(b):
@@ -105,6 +106,12 @@ def encode_record(x, y, flags):
     return bytes(bytearray([b0, b1, b2]))
 
 
+def write_header_line(f, line):
+    """Writes an optional header line, if it still fits in the header."""
+    if f.tell() + len(line.encode("utf8")) < DSTHEADERSIZE:
+        write_string_utf8(f, line)
+
+
 def write(pattern, f, settings=None):
     extended_header = False
     trim_at = 3
@@ -120,7 +127,10 @@ def write(pattern, f, settings=None):
 
     name = pattern.get_metadata("name", "Untitled")
 
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    name = "%-16s" % name
+    while len(name.encode("utf8")) > MAX_NAME_BYTES:
+        name = name[:-1]  # the header has a fixed size.
+    write_string_utf8(f, "LA:%s\r" % name)
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_color_changes())
 
@@ -148,13 +158,13 @@ def write(pattern, f, settings=None):
     if extended_header:
         author = pattern.get_metadata("author")
         if author is not None:
-            write_string_utf8(f, "AU:%s\r" % author)
+            write_header_line(f, "AU:%s\r" % author)
         meta_copyright = pattern.get_metadata("copyright")
         if meta_copyright is not None:
-            write_string_utf8(f, "CP:%s\r" % meta_copyright)
+            write_header_line(f, "CP:%s\r" % meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_string_utf8(
+                write_header_line(
                     f,
                     "TC:%s,%s,%s\r"
                     % (thread.hex_color(), thread.description, thread.catalog_number),
-- 
2.43.0


From 20b6e711983bcca90fd81a6e32b5ff2aa65ec0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 07/82] fix: U01 must not lose stitches after a speed command,
 nor combine SLOW and FAST into a trim

---
 pyembroidery/U01Writer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index cb8a57f..428df49 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -43,9 +43,11 @@ def write(pattern, f, settings=None):
         yy += dy
         if data == SLOW:
             trigger_slow = True
+            trigger_fast = False
             continue
         if data == FAST:
             trigger_fast = True
+            trigger_slow = False
             continue
         cmd = 0x80
         if dy >= 0:
@@ -54,6 +56,14 @@ def write(pattern, f, settings=None):
             cmd |= 0x20
         delta_x = abs(dx)
         delta_y = abs(dy)
+        if (data == STITCH or data == JUMP) and dx == 0 and dy == 0:
+            # A speed record without displacement only sets the speed.
+            if trigger_fast:
+                trigger_fast = False
+                f.write(bytes(bytearray([cmd | 0x02, 0, 0])))
+            if trigger_slow:
+                trigger_slow = False
+                f.write(bytes(bytearray([cmd | 0x04, 0, 0])))
         if data == STITCH:
             if trigger_fast:
                 trigger_fast = False
-- 
2.43.0


From 15ecba8dbcd8fa32c0491540b5e21985f7032333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 08/82] fix: XXX must write a stitch of exactly 124 units as a
 stitch, not as a long jump

---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..c27e423 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -124 <= dx <= 124 and -124 <= dy <= 124:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From f622002c56369b18528454f03ef18e9a0035c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 09/82] fix: XXX has no speed records, do not count SLOW and
 FAST as stitches in its header

---
 pyembroidery/XxxWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index c27e423..09baa35 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -3,6 +3,7 @@ from .WriteHelper import write_int_8, write_int_16le, write_int_32le
 
 FULL_JUMP = False
 ROUND = True
+WRITES_SPEEDS = False
 MAX_JUMP_DISTANCE = 124  # 0xFCFF/2 16 bit signed, FD,FE,FF reserved.
 MAX_STITCH_DISTANCE = 124
 
-- 
2.43.0


From b7c5ec717ebb35182c27755a79c4d2e46734cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 10/82] fix: TBF name and machine fields have a fixed size in
 bytes, a longer text shifted the thread order

---
 pyembroidery/TbfWriter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index bf47301..55a4ff4 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -10,6 +10,14 @@ THREAD_CHANGE_COMMAND = NEEDLE_SET
 EXPLICIT_TRIM = True
 
 
+def fit(text, size):
+    """Cuts the text to a field of the given size in bytes."""
+    text = "%s" % text
+    while len(text.encode("utf8")) > size:
+        text = text[:-1]
+    return text + " " * (size - len(text.encode("utf8")))
+
+
 def write(pattern, f, settings=None):
     if settings is not None and "ct0" in settings:
         ct0 = settings.get("ct0")
@@ -20,7 +28,7 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "3.00")
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    write_string_utf8(f, "LA:%s\r" % fit(name, 16))
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
@@ -45,7 +53,7 @@ def write(pattern, f, settings=None):
 
     # TP is unknown.
     tp = pattern.get_metadata("tp", "EG/")
-    write_string_utf8(f, "TP:%-32s\r" % tp)
+    write_string_utf8(f, "TP:%s\r" % fit(tp, 32))
 
     # JC is unknown.
     jc = "3"
-- 
2.43.0


From 039c94a69a35bd0139db3976da1748168d628ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 11/82] fix: TBF must not write a jump without displacement,
 which is read as a trim

---
 pyembroidery/TbfWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 55a4ff4..9fdb418 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -111,6 +111,8 @@ def write(pattern, f, settings=None):
             cmd = 0x80
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == JUMP:
+            if dx == 0 and dy == 0:
+                continue  # This record would be a trim.
             cmd = 0x90
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == STOP:
-- 
2.43.0


From 5e801bfc763f3570b7ac90e2f4ea96cb65bc3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 12/82] fix: TBF has no speed records, do not count SLOW and
 FAST as stitches in its header

---
 pyembroidery/TbfWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 9fdb418..48d13ff 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -4,6 +4,7 @@ from .WriteHelper import write_string_utf8, write_int_8
 
 FULL_JUMP = False
 ROUND = True
+WRITES_SPEEDS = False
 MAX_JUMP_DISTANCE = 127
 MAX_STITCH_DISTANCE = 127
 THREAD_CHANGE_COMMAND = NEEDLE_SET
-- 
2.43.0


From f0e0b680275e856499964ddfbe6c21fa3a4752a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 13/82] fix: JEF needs a color for the first block and for each
 change, also if the design is empty or starts with a change

---
 pyembroidery/JefWriter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 0fdace4..099e6a4 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -39,12 +39,15 @@ def write(pattern, f, settings=None):
     color_toggled = False
     color_count = 0  # Color and Stop count.
     index_in_threadlist = 0
+    blocks = 1
     for stitch in pattern.stitches:
         # Iterate all stitches.
         flags = stitch[2] & COMMAND_MASK
-        if flags == COLOR_CHANGE or index_in_threadlist == 0:
+        if flags == COLOR_CHANGE:
+            blocks += 1
+        while index_in_threadlist < blocks:
             # If color change *or* initial color unset.
-            thread = pattern.threadlist[index_in_threadlist]
+            thread = pattern.get_thread_or_filler(index_in_threadlist)
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-- 
2.43.0


From 798dc2e50f6538bc28578c6dea7e98503af622f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:57 +0000
Subject: [PATCH 14/82] fix: interpolate_trims must not treat jumps on both
 sides of a stop as one run, clipping deleted the stop

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..c65abc3 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -767,6 +767,8 @@ class EmbPattern:
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
                 jumping = False
+            elif command != JUMP:
+                jumping = False  # Only jumps without another command between them belong together.
             if command == JUMP:
                 if not jumping:
                     jump_dx = 0
-- 
2.43.0


From 9b2948068d1a842b759426f19633b79fb50286a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 15/82] fix: interpolate_duplicate_color_as_stop must count
 every color change, a leading or repeated stop turned a later change into a
 stop

---
 pyembroidery/EmbPattern.py | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index c65abc3..743397f 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -655,28 +655,31 @@ class EmbPattern:
         """Processes a pattern replacing any duplicate colors in the threadlist as a stop."""
         thread_index = 0
         init_color = True
-        last_change = None
+        last_break = None
         for position, stitch in enumerate(self.stitches):
             data = stitch[2] & COMMAND_MASK
+            change = None
             if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
-                if init_color:
-                    try:
-                        if (
-                            last_change is not None
-                            and thread_index != 0
-                            and self.threadlist[thread_index - 1]
-                            == self.threadlist[thread_index]
-                        ):
-                            del self.threadlist[thread_index]
-                            self.stitches[last_change][2] = STOP
-                        else:
-                            thread_index += 1
-                    except IndexError:  # Non-existent threads cannot double
-                        return
-                    init_color = False
-            elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
+                change = last_break  # a break is only a change if stitches follow.
+                last_break = None
+                init_color = False
+            elif data == COLOR_CHANGE:
+                change = position
+                last_break = None
                 init_color = True
-                last_change = position
+            elif data == COLOR_BREAK or data == NEEDLE_SET:
+                if not init_color:
+                    last_break = position
+                init_color = True
+            if change is None:
+                continue
+            if thread_index + 1 >= len(self.threadlist):
+                return  # Non-existent threads cannot double
+            if self.threadlist[thread_index] == self.threadlist[thread_index + 1]:
+                del self.threadlist[thread_index + 1]
+                self.stitches[change][2] = STOP
+            else:
+                thread_index += 1
 
     def interpolate_stop_as_duplicate_color(self, thread_change_command=COLOR_CHANGE):
         """Processes a pattern replacing any stop as a duplicate color, and color_change
-- 
2.43.0


From 19f069fc78fa3b8daf29bd42a32ce2e3934a21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 16/82] fix: PES sections take the thread of their block after
 consecutive changes, and need no thread for travel only

---
 pyembroidery/PesWriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 7a48c58..a32b648 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -331,8 +331,8 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
             block.append([last_pos[0] - adjust_x, last_pos[1] - adjust_y])
             flag = 1
         elif command == COLOR_CHANGE:
-            current_thread = pattern.get_thread_or_filler(color_index)
-            color_index += 1
+            color_index += len(command_block)  # consecutive changes are one block.
+            current_thread = pattern.get_thread_or_filler(color_index - 1)
             color_code = current_thread.find_nearest_color_index(chart)
             flag = 1
             continue
@@ -344,7 +344,7 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
             flag = 0
         else:
             continue
-        yield (block, color_code, flag)
+        yield (block, 0 if color_code is None else color_code, flag)
 
 
 def write_pes_embsewseg_segments(f, pattern, chart, left, bottom, cx, cy):
-- 
2.43.0


From 1dbfe407147c8ce03d9aff5f0454b7ab488218fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 17/82] fix: a PEC design without threads was read with 256
 threads

---
 pyembroidery/PecReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PecReader.py b/pyembroidery/PecReader.py
index 8d24360..5c52284 100644
--- a/pyembroidery/PecReader.py
+++ b/pyembroidery/PecReader.py
@@ -23,11 +23,11 @@ def read_pec(f, out, pes_chart=None):
     pec_graphic_icon_height = read_int_8(f)
     f.seek(0xC, 1)
     color_changes = read_int_8(f)
-    count_colors = color_changes + 1  # PEC uses cc - 1, 0xFF means 0.
+    count_colors = (color_changes + 1) & 0xFF  # PEC uses cc - 1, 0xFF means 0.
     color_bytes = bytearray(f.read(count_colors))
     threads = []
     map_pec_colors(color_bytes, out, pes_chart, threads)
-    f.seek(0x1D0 - color_changes, 1)
+    f.seek(0x1D1 - count_colors, 1)
     stitch_block_end = read_int_24le(f) - 5 + f.tell()
     # The end of this value is already 5 into the stitchblock.
 
-- 
2.43.0


From 08fb1393d3c32b99f2547d0eac0f364ed7e74cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 18/82] fix: PEC label and PES strings are measured in bytes,
 other than ASCII text shifted what follows

---
 pyembroidery/PecWriter.py | 6 +++++-
 pyembroidery/PesWriter.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3feae2b..3347db2 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -45,7 +45,11 @@ def write_pec(pattern, f, threadlist=None):
 
 def write_pec_header(pattern, f, threadlist):
     name = pattern.get_metadata("name", "Untitled")
-    write_string_utf8(f, "LA:%-16s\r" % name[:8])
+    name = name[:8]
+    while len(name.encode("utf8")) > 16:
+        name = name[:-1]
+    name += " " * (16 - len(name.encode("utf8")))  # The field is 16 bytes.
+    write_string_utf8(f, "LA:%s\r" % name)
     f.write(b"\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\xFF\x00")
     write_int_8(f, int(PEC_ICON_WIDTH / 8))  # PEC BYTE STRIDE
     write_int_8(f, int(PEC_ICON_HEIGHT))  # PEC ICON HEIGHT
diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index a32b648..3694792 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -219,9 +219,9 @@ def write_pes_string_8(f, string):
     if string is None:
         write_int_8(f, 0)
         return
-    if len(string) > 255:
-        string = string[:255]
-    write_int_8(f, len(string))
+    while len(string.encode("utf8")) > 255:
+        string = string[:-1]
+    write_int_8(f, len(string.encode("utf8")))  # size in bytes.
     write_string_utf8(f, string)
 
 
-- 
2.43.0


From a7a346d1c112ddc6f03cd173f98eacdcde844644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 19/82] fix: VP3 positions of blocks, center and size are 1/100
 units, cutting them to whole units moved blocks of designs with an odd size

---
 pyembroidery/Vp3Writer.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 43e62fd..dfdc0f3 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -123,20 +123,20 @@ def write_design_block(f, extends, colorblocks):
     center_x = extends[2] - half_width
     center_y = extends[3] - half_height
 
-    write_int_32be(f, int(center_x) * 100)  # initial x
-    write_int_32be(f, int(center_y) * -100)  # initial y
+    write_int_32be(f, int(round(center_x * 100)))  # initial x
+    write_int_32be(f, int(round(center_y * -100)))  # initial y
     write_int_8(f, 0)
     write_int_8(f, 0)
     write_int_8(f, 0)
 
     # extends 2
-    write_int_32be(f, int(half_width) * -100)
-    write_int_32be(f, int(half_width) * 100)
-    write_int_32be(f, int(half_height) * -100)
-    write_int_32be(f, int(half_height) * 100)
+    write_int_32be(f, int(round(half_width * -100)))
+    write_int_32be(f, int(round(half_width * 100)))
+    write_int_32be(f, int(round(half_height * -100)))
+    write_int_32be(f, int(round(half_height * 100)))
 
-    write_int_32be(f, int(width) * 100)
-    write_int_32be(f, int(height) * 100)
+    write_int_32be(f, int(round(width * 100)))
+    write_int_32be(f, int(round(height * 100)))
     vp3_write_string_16(f, "")  # This is notes and settings string.
 
     f.write(b"\x64\x64")  # write_int_16be(f, 25700)
@@ -181,16 +181,16 @@ def write_vp3_colorblock(f, first, center_x, center_y, stitches, thread):
         last_pos_y = 0
     start_position_from_center_x = first_pos_x - center_x
     start_position_from_center_y = -(first_pos_y - center_y)
-    write_int_32be(f, int(start_position_from_center_x) * 100)
-    write_int_32be(f, int(start_position_from_center_y) * 100)
+    write_int_32be(f, int(round(start_position_from_center_x * 100)))
+    write_int_32be(f, int(round(start_position_from_center_y * 100)))
 
     vp3_write_thread(f, thread)
 
     block_shift_x = last_pos_x - first_pos_x
     block_shift_y = -(last_pos_y - first_pos_y)
 
-    write_int_32be(f, int(block_shift_x) * 100)
-    write_int_32be(f, int(block_shift_y) * 100)
+    write_int_32be(f, int(round(block_shift_x * 100)))
+    write_int_32be(f, int(round(block_shift_y * 100)))
 
     write_stitches_block(f, stitches, first_pos_x, first_pos_y)
 
-- 
2.43.0


From 763530019a7a5f668730dd9b16225c810c5b2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 20/82] fix: VP3 must not lose the displacement of commands it
 does not write

---
 pyembroidery/Vp3Writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index dfdc0f3..c42bb87 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -252,6 +252,9 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
             continue
+        elif flags != STITCH:
+            # Nothing else is written, the next stitch still moves from the last one.
+            continue
         dx = int(x - last_x)
         dy = int(y - last_y)
         last_x += dx
-- 
2.43.0


From 4d463d4faf13161f85fef5dc1c6bfdb1f5f12293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 21/82] fix: VP3 reader skipped the start position of blocks
 with one coordinate at 0

---
 pyembroidery/Vp3Reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 3f973f6..dda7f49 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 and abs_y != 0:
+    if abs_x != 0 or abs_y != 0 or len(out.stitches) != 0:
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
-- 
2.43.0


From de3c22f3253aa82a8f537145030e0b0293024f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 22/82] fix: VP3 text is measured in bytes, other than ASCII
 text shifted what follows

---
 pyembroidery/Vp3Writer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index c42bb87..07c3c30 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -18,9 +18,7 @@ MAX_STITCH_DISTANCE = 255
 
 
 def vp3_write_string_8(stream, string):
-    write_int_16be(stream, len(string))
-    write_string_utf8(stream, string)
-    # vp3_write_length_and_bytes(stream, bytestring)
+    vp3_write_length_and_bytes(stream, string.encode("utf8"))
 
 
 def vp3_write_string_16(stream, string):
-- 
2.43.0


From 1768ea178debfbbc8fee13e7beb3e889e34a4b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:15 +0000
Subject: [PATCH 23/82] fix: VP3 stitches are rounded to the nearest unit, not
 cut towards the last stitch

---
 pyembroidery/Vp3Writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 07c3c30..df92639 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -253,8 +253,8 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
         elif flags != STITCH:
             # Nothing else is written, the next stitch still moves from the last one.
             continue
-        dx = int(x - last_x)
-        dy = int(y - last_y)
+        dx = int(round(x - last_x))
+        dy = int(round(y - last_y))
         last_x += dx
         last_y += dy
         if flags == STITCH:
-- 
2.43.0


From 354f46d5b17ad141c0634b3017da5844de4a2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 24/82] fix: G-code must not end at the first speed command

---
 pyembroidery/GcodeWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index b049aac..3a89ce1 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -98,4 +98,4 @@ def write(pattern, f, settings=None):
         elif command == END:
             write_string_utf8(f, "M30\n")
             continue
-        break  # Code shouldn't reach this point.
+        # Other commands, such as SLOW or FAST, have no G-code.
-- 
2.43.0


From 3170e771cd467fd3dd08ad8fe424397940cf38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 25/82] fix: G-code comments must not be ended by parentheses
 or line breaks in texts

---
 pyembroidery/GcodeWriter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index 3a89ce1..345d4d7 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -40,23 +40,30 @@ def write_data(pattern, f):
             write_string_utf8(f, "(%s: %d)\n" % (name, the_value))
 
 
+def write_comment(f, comment):
+    # A comment ends at the first closing parenthesis or the end of the line.
+    for c in "()\r\n":
+        comment = comment.replace(c, " ")
+    write_string_utf8(f, "(%s)\n" % comment)
+
+
 def write_metadata(pattern, f):
     if len(pattern.extras) > 0:
         for the_key, the_value in pattern.extras.items():
             try:
                 if isinstance(the_value, basestring):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_comment(f, "%s: %s" % (the_key, the_value))
             except NameError:
                 if isinstance(the_value, str):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_comment(f, "%s: %s" % (the_key, the_value))
 
 
 def write_threads(pattern, f):
     if len(pattern.threadlist) > 0:
         for i, thread in enumerate(pattern.threadlist):
-            write_string_utf8(
+            write_comment(
                 f,
-                "(Thread%d: %s %s %s %s)\n"
+                "Thread%d: %s %s %s %s"
                 % (
                     i,
                     thread.hex_color(),
-- 
2.43.0


From 5b8083f22ee90482df18cd6f7f48edab618883ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 26/82] fix: G-code reader took any comment mentioning a Thread
 for a thread color

---
 pyembroidery/GcodeReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 9c20dc1..be20517 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -72,8 +72,8 @@ def read(f, out, settings=None):
     for gc in parse(f):
         if "comment" in gc:
             comment = gc["comment"]
-            if "Thread" in comment:
-                split = comment.split(" ")
+            split = comment.split(" ")
+            if comment.startswith("Thread") and len(split) > 1 and split[1].startswith("#"):
                 out.add_thread(split[1])
 
         if "g" in gc:
-- 
2.43.0


From 9803ddc8828745e323a464a117ac87ec3542edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 27/82] fix: G-code reader failed at G01 without X or Y

---
 pyembroidery/GcodeReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index be20517..e316288 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -77,7 +77,7 @@ def read(f, out, settings=None):
                 out.add_thread(split[1])
 
         if "g" in gc:
-            if "x" in gc and "y" in gc and gc["g"] == 0.0 or gc["g"] == 1.0:
+            if "x" in gc and "y" in gc and (gc["g"] == 0.0 or gc["g"] == 1.0):
                 if absolute_mode:
                     out.stitch_abs(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
                 else:
-- 
2.43.0


From 4bc11b870417210975de95d7a0fa51d04d2db6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 28/82] fix: G-code reader lost a last line without line end

---
 pyembroidery/GcodeReader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index e316288..851fca3 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -62,6 +62,13 @@ def parse(f):
             code = ""
             value = ""
             continue
+    # The last line may lack a line end.
+    if comment is not None:
+        command_map["comment"] = comment
+    if len(code) != 0:
+        command_map[code] = float(value)
+    if len(command_map) != 0:
+        yield command_map
 
 
 def read(f, out, settings=None):
-- 
2.43.0


From 6db51ccda4a9000403ae853c740c5c667c8a918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 29/82] fix: PMV lost as many of its last points as there are
 other commands between them

---
 pyembroidery/PmvWriter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 1c4fbb3..ce8bf9c 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -54,10 +54,11 @@ def write(pattern, f, settings=None):
     min_y = +200000000
     xx = 0
     for stitch in pattern.stitches:
-        point_index += 1
+        data = stitch[2] & COMMAND_MASK
+        if data == STITCH or data == JUMP:
+            point_index += 1
         if point_index >= point_count:
             break
-        data = stitch[2] & COMMAND_MASK
         x = stitch[0]
         y = -stitch[1]
         x *= scale_x
-- 
2.43.0


From c232682844c119936a75f62788dbc6f7c6bc0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 30/82] fix: PMV points have 6 bits, long jumps need to be
 divided too

---
 pyembroidery/PmvWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index ce8bf9c..717d07b 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .WriteHelper import write_int_8, write_int_16le, write_string_utf8
 
 MAX_STITCH_DISTANCE = 70
+MAX_JUMP_DISTANCE = 70
 MAX_PERMITTED_STITCHES = 100
 
 
-- 
2.43.0


From 790e57ad9d44c276f978b5c05e0d0baa4b6f7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 31/82] fix: G-code reader ignored lower case letters

---
 pyembroidery/GcodeReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 851fca3..c618388 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -52,7 +52,7 @@ def parse(f):
             code = ""
             value = ""
         if is_letter:
-            code += str(byte)
+            code += chr(b)
             continue
         elif is_end:
             if len(command_map) == 0:
-- 
2.43.0


From 5166f16920e9081719ed712dd34d96892674a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 32/82] fix: sequin contingency commands had no name, CSV and
 JSON could not be read back

---
 pyembroidery/EmbFunctions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index f535b4e..9485c38 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -81,6 +81,10 @@ def get_command_dictionary():
         "CONTINGENCY_LONG_STITCH_NONE": CONTINGENCY_LONG_STITCH_NONE,
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": CONTINGENCY_LONG_STITCH_JUMP_NEEDLE,
         "CONTINGENCY_LONG_STITCH_SEW_TO": CONTINGENCY_LONG_STITCH_SEW_TO,
+        "CONTINGENCY_SEQUIN_UTILIZE": CONTINGENCY_SEQUIN_UTILIZE,
+        "CONTINGENCY_SEQUIN_JUMP": CONTINGENCY_SEQUIN_JUMP,
+        "CONTINGENCY_SEQUIN_STITCH": CONTINGENCY_SEQUIN_STITCH,
+        "CONTINGENCY_SEQUIN_REMOVE": CONTINGENCY_SEQUIN_REMOVE,
     }
 
 
@@ -124,4 +128,8 @@ def get_common_name_dictionary():
         CONTINGENCY_LONG_STITCH_NONE: "CONTINGENCY_LONG_STITCH_NONE",
         CONTINGENCY_LONG_STITCH_JUMP_NEEDLE: "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE",
         CONTINGENCY_LONG_STITCH_SEW_TO: "CONTINGENCY_LONG_STITCH_SEW_TO",
+        CONTINGENCY_SEQUIN_UTILIZE: "CONTINGENCY_SEQUIN_UTILIZE",
+        CONTINGENCY_SEQUIN_JUMP: "CONTINGENCY_SEQUIN_JUMP",
+        CONTINGENCY_SEQUIN_STITCH: "CONTINGENCY_SEQUIN_STITCH",
+        CONTINGENCY_SEQUIN_REMOVE: "CONTINGENCY_SEQUIN_REMOVE",
     }
-- 
2.43.0


From d31f8ac099b8e1f2de8450807512beab7d385a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:31 +0000
Subject: [PATCH 33/82] fix: CSV and JSON readers failed at commands they write
 as UNKNOWN

---
 pyembroidery/CsvReader.py  | 7 ++++++-
 pyembroidery/JsonReader.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 4cf33d3..10d356f 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -13,7 +13,12 @@ def read(f, out, settings=None):
             continue
         if "*" in row[0]:
             split = row[2].split(" ")
-            command = command_dict[split[0]]
+            if split[0] == "UNKNOWN":
+                # Written for commands without a name.
+                command = int(split[1])
+                split = split[:1]
+            else:
+                command = command_dict[split[0]]
             for sp in split[1:]:
                 if sp[0] == "n":
                     needle = int(sp[1:])
diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index f0ba0d9..d58df8d 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -4,6 +4,9 @@ from .EmbThread import EmbThread
 
 def decoded_command(command_dict, name):
     split = name.split(" ")
+    if split[0] == "UNKNOWN":
+        # Written for commands without a name.
+        return int(split[1])
     command = command_dict[split[0]]
     for sp in split[1:]:
         if sp[0] == "n":
-- 
2.43.0


From 9151c7c1ac242d3616fa2e73c845d7dd9cc5a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 34/82] fix: CSV quotes in texts must be doubled

---
 pyembroidery/CsvWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 05e0d23..fb11030 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,7 +14,7 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
-        string += '"%s"' % v
+        string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
 
-- 
2.43.0


From 37fd3cec2bdced17d9ce730ea0147e537a95e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 35/82] fix: CSV lost details, weight and chart of threads

---
 pyembroidery/CsvReader.py | 4 ++++
 pyembroidery/CsvWriter.py | 2 ++
 pyembroidery/EmbThread.py | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 10d356f..00c32de 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -77,4 +77,8 @@ def read(f, out, settings=None):
                     thread_add["weight"] = row[7]
                 except IndexError:
                     pass
+                try:
+                    thread_add["chart"] = row[8]
+                except IndexError:
+                    pass
             out.add_thread(thread_add)
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index fb11030..23a320d 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -95,6 +95,7 @@ def write_threads(pattern, f):
                 "[CATALOG_NUMBER]",
                 "[DETAILS]",
                 "[WEIGHT]",
+                "[CHART]",
             ),
         )
         for i, thread in enumerate(pattern.threadlist):
@@ -109,6 +110,7 @@ def write_threads(pattern, f):
                     thread.catalog_number,
                     thread.details,
                     thread.weight,
+                    thread.chart,
                 ),
             )
         write_string_utf8(f, "\n")
diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 995789d..af445b5 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -251,6 +251,12 @@ class EmbThread:
                 self.catalog_number = thread["id"]
             if "catalog" in thread:
                 self.catalog_number = thread["catalog"]
+            if "details" in thread:
+                self.details = thread["details"]
+            if "chart" in thread:
+                self.chart = thread["chart"]
+            if "weight" in thread:
+                self.weight = thread["weight"]
         else:
             try:
                 if isinstance(thread, basestring):
-- 
2.43.0


From 5e1a2a1ee6b8a48ac0e1072d4f5b3f323f2fbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 36/82] fix: CSV read unset thread texts back as 'None'

---
 pyembroidery/CsvReader.py | 3 ++-
 pyembroidery/CsvWriter.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 00c32de..d1a60df 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -81,4 +81,5 @@ def read(f, out, settings=None):
                     thread_add["chart"] = row[8]
                 except IndexError:
                     pass
-            out.add_thread(thread_add)
+            # An empty field is not set.
+            out.add_thread({k: v for k, v in thread_add.items() if v != ""})
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 23a320d..e8a8ac9 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,6 +14,8 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
+        if v is None:
+            v = ""
         string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
-- 
2.43.0


From e02e54527759f35f1d5f7f7cd3f6bdf6ac15293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 37/82] fix: commands added after a JSON file start at its last
 position

---
 pyembroidery/JsonReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index d58df8d..e02b104 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -40,5 +40,5 @@ def read(f, out, settings=None):
         thread.weight = t["weight"]
         out.add_thread(thread)
     for s in stitches:
-        out.stitches.append([s[0], s[1], decoded_command(command_dict, s[2])])
+        out.add_stitch_absolute(decoded_command(command_dict, s[2]), s[0], s[1])
     out.extras.update(extras)
-- 
2.43.0


From af93cc84f67218e20264b90955491d635cc5124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:17 +0000
Subject: [PATCH 38/82] fix: INF text is measured in bytes, other than ASCII
 text lost the threads after it

---
 pyembroidery/InfWriter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/InfWriter.py b/pyembroidery/InfWriter.py
index b5ebf49..6ecf94f 100644
--- a/pyembroidery/InfWriter.py
+++ b/pyembroidery/InfWriter.py
@@ -1,4 +1,4 @@
-from .WriteHelper import write_int_8, write_int_16be, write_int_32be, write_string_utf8
+from .WriteHelper import write_int_8, write_int_16be, write_int_32be
 
 ENCODE = False
 
@@ -22,9 +22,11 @@ def write(pattern, f, settings=None):
         details = thread.description
         if details is None:
             details = "Unknown"
+        details = details.encode("utf8")
         chart = thread.chart
         if chart is None:
             chart = "Unknown"
+        chart = chart.encode("utf8")
         write_int_16be(
             f, 11 + len(details) + len(chart)
         )  # 2 + 2 + 1 + 1 + 1 + 2 + d + 1 + c + 1 = 11 + d + c
@@ -34,8 +36,8 @@ def write(pattern, f, settings=None):
         write_int_8(f, thread.get_green())
         write_int_8(f, thread.get_blue())
         write_int_16be(f, index)  # needle number
-        write_string_utf8(f, details)
+        f.write(details)
         write_int_8(f, 0)
-        write_string_utf8(f, chart)
+        f.write(chart)
         write_int_8(f, 0)
     patch_byte_offset(f, placeholder)
-- 
2.43.0


From fc8779a731834c07dbc9af7a00d2b5e9e12f8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 39/82] fix: text files are written in UTF-8, read them in
 UTF-8 and keep line breaks within texts

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 743397f..9a1135e 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1484,7 +1484,7 @@ class EmbPattern:
             except AttributeError:
                 pass
             if text_mode:
-                with open(f, "r") as stream:
+                with open(f, "r", encoding="utf8", newline="") as stream:
                     reader.read(stream, pattern, settings)
             else:
                 with open(f, "rb") as stream:
-- 
2.43.0


From 0663baf248a43778361cbe28f074a8bd053240e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 40/82] fix: adding an empty list to a pattern replaced the
 pattern with None

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9a1135e..3c13b4a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -162,7 +162,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From 4327c93f62cef265d527f07e7cc1185b1b91b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 41/82] fix: copies and sums of patterns shared their stitches
 with the original, moving one moved the other

---
 pyembroidery/EmbPattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 3c13b4a..a04c7b6 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -87,7 +87,7 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
+                self.stitches = [stitch[:] for stitch in arg0.stitches]
                 self.threadlist = arg0.threadlist[:]
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
@@ -206,7 +206,7 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
+        emb_pattern.stitches = [stitch[:] for stitch in self.stitches]
         emb_pattern.threadlist = self.threadlist[:]
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
@@ -641,7 +641,7 @@ class EmbPattern:
                 self.threadlist.extend(pattern.threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([stitch[:] for stitch in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From e48d7765d3f3d61ab7dd23f7e35e85001ad3df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 42/82] fix: copy.deepcopy of a pattern failed, the default
 deep copy is the right one

---
 pyembroidery/EmbPattern.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index a04c7b6..9d388ed 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -145,9 +145,6 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
-        return self.copy()
-
     def __iadd__(self, other):
         if isinstance(other, EmbPattern):
             self.add_pattern(other)
-- 
2.43.0


From 911d0a3216f0616b328f82ff1cc662f448255043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 43/82] fix: add_pattern failed on empty patterns and lost
 colors after a color break, and now continues where the added pattern ends

---
 pyembroidery/EmbPattern.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9d388ed..1483e3e 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -612,7 +612,9 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        elif pattern is self:
+            pattern = self.copy()
+        if len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -620,7 +622,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
@@ -631,8 +633,30 @@ class EmbPattern:
         # Add the new thread only if it's different from the last one
         self.fix_color_count()
 
+        # The last thread change, if nothing is sewn after it, and whether anything is sewn at all.
+        last_change = None
+        sewn = False
+        for position, stitch in enumerate(self.stitches):
+            data = stitch[2] & COMMAND_MASK
+            if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
+                last_change = None
+                sewn = True
+            elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
+                last_change = position
+
         if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
+            if not sewn:
+                self.threadlist.extend(pattern.threadlist)
+            elif last_change is not None:
+                if (
+                    self.stitches[last_change][2] & COMMAND_MASK == COLOR_BREAK
+                    and pattern.threadlist[0] == self.threadlist[-1]
+                ):
+                    self.stitches[last_change][2] = SEQUENCE_BREAK
+                    self.threadlist.extend(pattern.threadlist[1:])
+                else:
+                    self.threadlist.extend(pattern.threadlist)
+            elif pattern.threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(pattern.threadlist[1:])
             else:
                 self.threadlist.extend(pattern.threadlist)
@@ -646,6 +670,9 @@ class EmbPattern:
                 break
             elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
                 self.stitches[i][2] = NO_COMMAND
+        if len(pattern.stitches) > 0:
+            self._previousX = pattern._previousX
+            self._previousY = pattern._previousY
         self.extras.update(pattern.extras)
 
     def interpolate_duplicate_color_as_stop(self):
-- 
2.43.0


From 791d19c0b2c39bddce4719995a6ed3ab2d7cc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 44/82] fix: interpolate_stop_as_duplicate_color took an
 initial needle set or color break for a change of color

---
 pyembroidery/EmbPattern.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 1483e3e..b27823e 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -709,12 +709,18 @@ class EmbPattern:
         """Processes a pattern replacing any stop as a duplicate color, and color_change
         or another specified thread_change_command"""
         thread_index = 0
+        init_color = True
         for position, stitch in enumerate(self.stitches):
             data = stitch[2] & COMMAND_MASK
             if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
-                continue
-            elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
+                init_color = False
+            elif data == COLOR_CHANGE:
                 thread_index += 1
+                init_color = True
+            elif data == COLOR_BREAK or data == NEEDLE_SET:
+                if not init_color:
+                    thread_index += 1  # the first one only declares the initial color.
+                init_color = True
             elif data == STOP:
                 try:
                     self.threadlist.insert(thread_index, self.threadlist[thread_index])
-- 
2.43.0


From 2ca4b0ce9b5ed889fec366855bc3088a5d29cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 45/82] fix: get_pattern_merge_jumps dropped all sequences of
 jumps but the first

---
 pyembroidery/EmbPattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index b27823e..b36b463 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -886,6 +886,7 @@ class EmbPattern:
                 new_pattern.add_command(STITCH_BREAK)
                 stitch_break = True
                 continue
+            stitch_break = False
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From e4a6e01a8c6ec7d8e10191c1b5860ad326665836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 46/82] fix: get_pattern_interpolate_trim miscounted jumps at
 the end of the pattern and could trim twice

---
 pyembroidery/EmbPattern.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index b36b463..8998cce 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -841,7 +841,6 @@ class EmbPattern:
         new_pattern = EmbPattern()
         i = -1
         ie = len(self.stitches) - 1
-        count = 0
         trimmed = True
         while i < ie:
             i += 1
@@ -854,17 +853,14 @@ class EmbPattern:
             if trimmed or stitch[2] != JUMP:
                 new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
                 continue
-            while i < ie and command == JUMP:
+            count = 1
+            while i < ie and self.stitches[i + 1][2] == JUMP:
                 i += 1
-                stitch = self.stitches[i]
-                command = stitch[2]
                 count += 1
-            if command != JUMP:
-                i -= 1
             stitch = self.stitches[i]
             if count >= jumps_to_require_trim:
                 new_pattern.trim()
-            count = 0
+                trimmed = True
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From 34dada4a516396eb7b03a21832f8f6b6910d84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 47/82] fix: move_center_to_origin failed on an empty pattern

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 8998cce..d62b67d 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -473,6 +473,8 @@ class EmbPattern:
         return singleton
 
     def move_center_to_origin(self):
+        if len(self.stitches) == 0:
+            return  # there is nothing to move.
         extends = self.bounds()
         cx = round((extends[2] + extends[0]) / 2.0)
         cy = round((extends[3] + extends[1]) / 2.0)
-- 
2.43.0


From 37a06492c5e500bc7bea0b46627f02a9cc8ecd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 48/82] fix: commands relative to the previous location ignored
 that translate and transform moved it

---
 pyembroidery/EmbPattern.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index d62b67d..418ea5b 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -484,10 +484,17 @@ class EmbPattern:
         for stitch in self.stitches:
             stitch[0] += dx
             stitch[1] += dy
+        if len(self.stitches) > 0:
+            self._previousX += dx
+            self._previousY += dy
 
     def transform(self, matrix):
         for stitch in self.stitches:
             matrix.apply(stitch)
+        if len(self.stitches) > 0:
+            previous = [self._previousX, self._previousY]
+            matrix.apply(previous)
+            self._previousX, self._previousY = previous
 
     def fix_color_count(self):
         """Ensure that there are threads for all color blocks."""
-- 
2.43.0


From 25eeccddde190fbf03237538a60311686d65af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:49 +0000
Subject: [PATCH 49/82] fix: interpolate_frame_eject dropped sequins, speeds
 and further stops near a frame eject

---
 pyembroidery/EmbPattern.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 418ea5b..4292f79 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -744,36 +744,36 @@ class EmbPattern:
         stop_x = None
         stop_y = None
         sequence_start_position = None
+        return_position = None
         position = 0
         ie = len(self.stitches)
         while position < ie:
             stitch = self.stitches[position]
             data = stitch[2] & COMMAND_MASK
-            if (
-                data == STITCH
-                or data == SEW_TO
-                or data == NEEDLE_AT
-                or data == COLOR_CHANGE
-                or data == COLOR_BREAK
-                or data == NEEDLE_SET
-            ):
-                if mode == 3:
-                    del self.stitches[sequence_start_position:position]
-                    position = sequence_start_position
-                    self.stitches.insert(position, [stop_x, stop_y, FRAME_EJECT])
-                    ie = len(self.stitches)
-                mode = 0
-            elif data == JUMP:
+            if data == JUMP:
                 if mode == 2:
                     mode = 3
+                    return_position = position
                 if mode == 0:
                     sequence_start_position = position
                     mode = 1
-            elif data == STOP:
-                if mode == 1:
-                    mode = 2
+            elif data != TRIM and data != END and data != NO_COMMAND & COMMAND_MASK:
+                if mode == 3:
+                    # jumps that lead to another stop stay there.
+                    end_position = return_position if data == STOP else position
+                    del self.stitches[sequence_start_position:end_position]
+                    self.stitches.insert(
+                        sequence_start_position, [stop_x, stop_y, FRAME_EJECT]
+                    )
+                    sequence_start_position += 1
+                    position -= end_position - sequence_start_position
+                    ie = len(self.stitches)
+                if data == STOP and (mode == 1 or mode == 3):
+                    mode = 2  # the jumps led to this stop.
                     stop_x = stitch[0]
                     stop_y = stitch[1]
+                else:
+                    mode = 0
             position += 1
         if mode >= 2:  # Frame_eject at end.
             del self.stitches[sequence_start_position:position]
-- 
2.43.0


From 51edbee0c66cf37061b670ef216e461fba38c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 50/82] fix: matrix @= replaced the matrix with None, and a
 computed matrix could not be printed or equal the identity

---
 pyembroidery/EmbMatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index a8c69ab..bec265f 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -12,7 +12,7 @@ class EmbMatrix:
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self.m == other.m
+        return tuple(self.m) == tuple(other.m)
 
     def __matmul__(self, other):
         return EmbMatrix(EmbMatrix.matrix_multiply(self.m, other.m))
@@ -22,9 +22,10 @@ class EmbMatrix:
 
     def __imatmul__(self, other):
         self.m = EmbMatrix.matrix_multiply(self.m, other.m)
+        return self
 
     def __str__(self):
-        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
+        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % tuple(self.m)
 
     def get_matrix(self):
         return self.m
-- 
2.43.0


From 36520ae43faf283af5418105026be49ac7133d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 51/82] fix: append_translation added the previous location to
 the translation

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 4292f79..c26055a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -916,7 +916,7 @@ class EmbPattern:
         """Appends translation to the pattern.
         All commands will be translated by the given amount,
         including absolute location commands."""
-        self.add_stitch_relative(MATRIX_TRANSLATE, x, y)
+        self.add_command(MATRIX_TRANSLATE, x, y)
 
     @staticmethod
     def supported_formats():
-- 
2.43.0


From 48eb7198dc290bf1e29f8dd9365cd1dfc269b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:01 +0000
Subject: [PATCH 52/82] fix: TXT gave every command the colour of the first
 thread

---
 pyembroidery/TxtWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index 362b907..a627277 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -46,6 +46,7 @@ def write_normal(pattern, f):
         yy = stitch[1]
         flags = stitch[2] & COMMAND_MASK
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
+            color_index += 1
             color = pattern.get_thread_or_filler(color_index).color
         named_command = names[(flags & COMMAND_MASK)]
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
-- 
2.43.0


From 84515d4ffecbedb354d2851631019f9d0a187c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:04 +0000
Subject: [PATCH 53/82] fix: embroidermodder TXT failed on speed commands

---
 pyembroidery/TxtWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index a627277..99ec8be 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -27,7 +27,9 @@ def write_mimic(pattern, f):
         flags = stitch[2]
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
             color += 1
-        flags = emb_mod_convert[(flags & COMMAND_MASK)]
+        flags = emb_mod_convert.get(flags & COMMAND_MASK)
+        if flags is None:
+            continue  # embroidermodder has no such command.
         txt_line = "%.1f,%.1f color:%i flags:%s\n" % (
             xx / 10.0,
             yy / 10.0,
-- 
2.43.0


From 5ba8b940f63fdc60d70dcb07cbd3cab74cec6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 54/82] fix: PNG lines wider than the margin reappeared at the
 opposite edge

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 17795db..feb776b 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -333,6 +333,8 @@ class PngBuffer:
         try:
             x += 1
             y += 1
+            if not 0 <= x < self.width or not 0 <= y < self.height:
+                return  # outside the canvas.
             pos = (self.width * y) + x
             idx = pos * 4
             background_a = self.buf[idx + 3]
-- 
2.43.0


From 4f726f3882a37c1fcac808a59b8a6dd2870dcd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:11 +0000
Subject: [PATCH 55/82] fix: PNG guides failed on small designs and wrapped
 their text around

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index feb776b..5ba113c 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -460,6 +460,8 @@ class PngBuffer:
                     else:
                         gx = x + cx + 2
                         gy = y + cy + 2
+                    if not 0 <= gx < self.width or not 0 <= gy < self.height:
+                        continue  # outside the canvas.
                     pos = (self.width * gy) + gx
                     idx = pos * 4
                     a2 = (9.0 - v) / 9.0
-- 
2.43.0


From be85b6d5f590502a43b7e374603435df01731a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 56/82] fix: templates without an end segment left blocks,
 colors and the document open

---
 pyembroidery/GenericWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 22686c1..2867cc8 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -571,4 +571,5 @@ class GenericWriter:
         self.close_block()
         self.close_color()
         self.close_document()
+        self.write_closes()
         self.close_pattern()
-- 
2.43.0


From d4b370acc70f9dedb1483ac9d07264f6f8b98039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 57/82] fix: templates wrote joins before the first color and
 block, and counted both from 1

---
 pyembroidery/GenericWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 2867cc8..b1a2bb9 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -319,7 +319,7 @@ class GenericWriter:
             self.document_established = True
             self.document_index += 1
             self.document_opening = True
-            self.color_index = 0
+            self.color_index = -1
 
             self.format_dictionary.update(
                 {
@@ -340,7 +340,7 @@ class GenericWriter:
             self.color_opening = True
 
             self.thread = self.pattern.get_thread_or_filler(self.thread_index)
-            self.block_index = 0
+            self.block_index = -1
             self.color_index += 1
             self.format_dictionary.update(
                 {
-- 
2.43.0


From 88d4d706405170604bebf22beef987c63102fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 58/82] fix: template cases were chosen by the position of the
 previous command

---
 pyembroidery/GenericWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index b1a2bb9..dc89871 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -452,11 +452,11 @@ class GenericWriter:
 
             # MAIN CODE, there is something to write.
             if write_segment is not None:
+                self.update_positions(self.x, self.y, self.cmd)
                 if isinstance(write_segment, dict):
                     key, default = write_segment[None]
                     key = key.format_map(self.format_dictionary)
                     write_segment = write_segment.get(key, default)
-                self.update_positions(self.x, self.y, self.cmd)
                 if self.cmd == SEQUIN_MODE:
                     self.open_document()
                     self.open_color()
-- 
2.43.0


From cd77c61d31b13db1e9a484b6c3470f44b1f65765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 59/82] fix: expand decoded one token more than the stated
 uncompressed size

---
 pyembroidery/EmbCompress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index cddfc91..d4f07eb 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -178,7 +178,7 @@ class EmbCompress:
         self.block_elements = -1
         bits_total = len(input_data) * 8
         while bits_total > self.bit_position and (
-            uncompressed_size is None or len(output_data) <= uncompressed_size
+            uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
             if character <= 255:  # literal.
-- 
2.43.0


From 3457f0fe3886544ae8dd5858aec12f65dba6af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 60/82] fix: compress wrote block sizes that expand could not
 read

---
 pyembroidery/EmbCompress.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index d4f07eb..65e4653 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -4,11 +4,16 @@ def expand(data, uncompressed_size=None):
 
 
 def compress(data):
-    size = len(data)
-    return (
-        bytearray([(size >> 0) & 0xFF, (size >> 8) & 0xFF, 0x02, 0xA0, 0x01, 0xFE])
-        + data
-    )
+    compressed = bytearray()
+    for start in range(0, len(data), 0xFFFF):
+        block = data[start : start + 0xFFFF]
+        size = len(block)
+        # Block elements are stored big-endian, and at most 16 bits.
+        compressed += bytearray(
+            [(size >> 8) & 0xFF, (size >> 0) & 0xFF, 0x02, 0xA0, 0x01, 0xFE]
+        )
+        compressed += block
+    return compressed
 
 
 class Huffman:
-- 
2.43.0


From ad0144a864299bfecfdb93bc0f699e671787e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 61/82] fix: reading a Barudan DAT needle change failed

---
 pyembroidery/DatReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 4494278..1ed8e88 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -74,7 +74,7 @@ def read_barudan_dat(f, out):
         if 0x09 <= command <= 0x17:
             # C01 - C14
             needle = command - 0x08
-            out.needle_out(needle)
+            out.needle_change(needle)
             if dx != 0 or dy != 0:
                 out.move(dx, dy)
             continue
-- 
2.43.0


From 0b2f10095787011d5d55558ea2e76c23ae20f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 62/82] fix: JPX colour changes lost purely horizontal or
 vertical moves

---
 pyembroidery/JpxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JpxReader.py b/pyembroidery/JpxReader.py
index 86e1d42..dec6405 100644
--- a/pyembroidery/JpxReader.py
+++ b/pyembroidery/JpxReader.py
@@ -22,7 +22,7 @@ def read_jpx_stitches(f, out):
             continue
         if ctrl == 0x01:  # Colorchange
             out.color_change()
-            if x != 0 and y != 0:
+            if x != 0 or y != 0:
                 out.move(x, y)
             continue
         if ctrl == 0x10:
-- 
2.43.0


From 99d6f10a3805769fe31bcc73b07262bb31cbc2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 63/82] fix: reading a SHV file without colours failed

---
 pyembroidery/ShvReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/ShvReader.py b/pyembroidery/ShvReader.py
index 04d93c1..c0a360b 100644
--- a/pyembroidery/ShvReader.py
+++ b/pyembroidery/ShvReader.py
@@ -40,8 +40,8 @@ def read(f, out, settings=None):
     current_color_index = 0
     try:
         max_stitches = stitch_per_color[current_color_index]
-    except IndexError:
-        max_stitches = 0
+    except KeyError:
+        max_stitches = 0xFFFFFFFF
     while True:
         flags = STITCH
         if in_jump:
-- 
2.43.0


From b898f2218bd5c7d044c2a0f412898205cac17213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 64/82] fix: SPX designs were read without their END

---
 pyembroidery/SpxReader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/SpxReader.py b/pyembroidery/SpxReader.py
index b0bf437..56cde11 100644
--- a/pyembroidery/SpxReader.py
+++ b/pyembroidery/SpxReader.py
@@ -15,3 +15,4 @@ def read(f, out, settings=None):
         if len(b) != 2:
             break
         out.stitch(dx, dy)
+    out.end()
-- 
2.43.0


From 666dfc0596df59f1409ebd9ab06715b409ed20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 65/82] fix: reading a MAX file shorter than its stitch count
 failed

---
 pyembroidery/MaxReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/MaxReader.py b/pyembroidery/MaxReader.py
index c8d5a57..ab7e605 100644
--- a/pyembroidery/MaxReader.py
+++ b/pyembroidery/MaxReader.py
@@ -11,11 +11,11 @@ def read(f, out, settings=None):
         c0 = read_int_8(f)
         y = read_int_24le(f)
         c1 = read_int_8(f)
+        if c1 is None:
+            break
         x = signed24(x)
         y = signed24(y)
         x *= MAX_SIZE_CONVERSION_RATIO
         y *= MAX_SIZE_CONVERSION_RATIO
-        if c1 is None:
-            break
         out.stitch_abs(x, y)
     out.end()
-- 
2.43.0


From 32857b42c10646dcc701e5a180dd0b3d24cd4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 66/82] fix: files with an alternative extension of their
 format were not recognised

---
 pyembroidery/EmbPattern.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index c26055a..6740eaa 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1039,7 +1039,7 @@ class EmbPattern:
             {
                 "description": "Scalable Vector Graphics",
                 "extension": "svg",
-                "extensions": ("svg", "svgz"),
+                "extensions": ("svg",),
                 "mimetype": "image/svg+xml",
                 "category": "vector",
                 "writer": SvgWriter,
@@ -1244,7 +1244,7 @@ class EmbPattern:
             {
                 "description": "Pfaff Embroidery Format",
                 "extension": "spx",
-                "extensions": ("spx"),
+                "extensions": ("spx",),
                 "mimetype": "application/x-spx",
                 "category": "embroidery",
                 "reader": SpxReader,
@@ -1428,7 +1428,7 @@ class EmbPattern:
             {
                 "description": "gcode Format, Text File",
                 "extension": "gcode",
-                "extensions": ("gcode", "g-code", "ngc", "nc", ".g"),
+                "extensions": ("gcode", "g-code", "ngc", "nc", "g"),
                 "mimetype": "text/plain",
                 "category": "embroidery",
                 "reader": GcodeReader,
@@ -1595,7 +1595,10 @@ class EmbPattern:
         extension = EmbPattern.get_extension_by_filename(filename)
         extension = extension.lower()
         for file_type in EmbPattern.supported_formats():
-            if file_type["extension"] != extension:
+            if (
+                extension != file_type["extension"]
+                and extension not in file_type["extensions"]
+            ):
                 continue
             reader = file_type.get("reader", None)
             return EmbPattern.read_embroidery(reader, filename, settings, pattern)
@@ -1767,12 +1770,15 @@ class EmbPattern:
         """Writes file, assuming type by extension"""
         extension = EmbPattern.get_extension_by_filename(filename)
         extension = extension.lower()
-        supported_extensions = [file_type["extension"] for file_type in EmbPattern.supported_formats()]
+        ext_to_file_type_lookup = {}
+        for file_type in EmbPattern.supported_formats():
+            ext_to_file_type_lookup[file_type["extension"]] = file_type
+            for alternative in file_type["extensions"]:
+                ext_to_file_type_lookup[alternative] = file_type
 
-        if extension not in supported_extensions:
+        if extension not in ext_to_file_type_lookup:
             raise IOError("Conversion to file type '{extension}' is not supported".format(extension=extension))
 
-        ext_to_file_type_lookup = {file_type["extension"]: file_type for file_type in EmbPattern.supported_formats()}
         writer = ext_to_file_type_lookup[extension].get("writer")
 
         if writer:
-- 
2.43.0


From b5e0ca8a72cfb1b79147344300f528662b6b3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 67/82] fix: text files were written in another encoding than
 they are read in

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 6740eaa..272f1f3 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1682,7 +1682,7 @@ class EmbPattern:
             except AttributeError:
                 pass
             if text_mode:
-                with open(stream, "w") as stream:
+                with open(stream, "w", encoding="utf8", newline="") as stream:
                     writer.write(pattern, stream, settings)
             else:
                 with open(stream, "wb") as stream:
-- 
2.43.0


From 3b739fe3a0a6985b793a50761625f23e5a289c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 68/82] fix: truncated HUS streams ended with invented bytes

---
 pyembroidery/EmbCompress.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index 65e4653..23935ab 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -186,6 +186,8 @@ class EmbCompress:
             uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
+            if self.bit_position > bits_total:
+                break  # Input ended within the token.
             if character <= 255:  # literal.
                 output_data.append(character)
             elif character == 510:
@@ -193,6 +195,8 @@ class EmbCompress:
             else:
                 length = character - 253  # Min length is 3. 256-253=3.
                 back = self.get_position() + 1
+                if self.bit_position > bits_total:
+                    break  # Input ended within the token.
                 position = len(output_data) - back
                 if back > length:
                     # Entire lookback is already within output data.
-- 
2.43.0


From 4eb96b8847a355e7fb5f3ba7e37e6129f08470c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 69/82] fix: truncated JEF files were read with threads that
 were None

---
 pyembroidery/JefReader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index dd884d5..6cddf14 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -35,6 +35,8 @@ def read_jef_stitches(f, out, settings=None):
             break
         break  # Uncaught Control
     out.end(0, 0)
+    # Stops which were never reached are not threads.
+    out.threadlist[:] = [thread for thread in out.threadlist if thread is not None]
 
     clipping = True
     trims = False
-- 
2.43.0


From d52d8278316849b5e074bd48ebdd01e01e4beb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 70/82] fix: writing with encode off changed the pattern being
 written

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 272f1f3..9a342f5 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1674,6 +1674,8 @@ class EmbPattern:
                 except AttributeError:
                     pass
             pattern = pattern.get_normalized_pattern(settings)
+        else:
+            pattern = pattern.copy()  # writers may fix up what they are given.
 
         if EmbPattern.is_str(stream):
             text_mode = False
-- 
2.43.0


From 5e3b2c5c76343a34bf2125e20908079c2a46bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 71/82] fix: encoded colour changes named threads by their
 place in the source's threadlist

---
 pyembroidery/EmbEncoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index ed560de..146d923 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -593,7 +593,10 @@ class Transcoder:
         if self.thread_change_command == COLOR_CHANGE:
             threadlist.append(change[3])
             if self.order_index != 0:
-                self.add_thread_change(COLOR_CHANGE, change[1], change[2])
+                # the thread is an index into the threadlist of the encoding.
+                self.add_thread_change(
+                    COLOR_CHANGE, len(threadlist) - 1, change[2]
+                )
         elif self.thread_change_command == NEEDLE_SET:
             # We do not append the thread, we already have all threads
             self.add_thread_change(NEEDLE_SET, change[1], change[2])
-- 
2.43.0


From 0f0b8e1c31243de7c7bee77e28c91e884175fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 72/82] fix: thread, needle and order numbers of 255 and more
 spilled into the next field of the command

---
 pyembroidery/EmbFunctions.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index 9485c38..c48a5d9 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -2,20 +2,17 @@ from .EmbConstant import *
 
 
 def encode_thread_change(command, thread=None, needle=None, order=None):
-    if thread is None:
-        thread = 0
+    if thread is None or not 0 <= thread < 0xFF:
+        thread = 0  # absent, or a number the command cannot hold.
     else:
-        thread &= 0xFF
         thread += 1
-    if needle is None:
-        needle = 0
+    if needle is None or not 0 <= needle < 0xFF:
+        needle = 0  # absent, or a number the command cannot hold.
     else:
-        needle &= 0xFF
         needle += 1
-    if order is None:
-        order = 0
+    if order is None or not 0 <= order < 0xFF:
+        order = 0  # absent, or a number the command cannot hold.
     else:
-        order &= 0xFF
         order += 1
     command &= COMMAND_MASK
     return command | (order << 24) | (needle << 16) | (thread << 8)
-- 
2.43.0


From 5ed437974fe981f79abde9396371d8ffac99cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 73/82] fix: the JEF reader lost the displacement of color
 change records

---
 pyembroidery/JefReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index 6cddf14..b77beaf 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -25,10 +25,10 @@ def read_jef_stitches(f, out, settings=None):
         if ctrl == 0x01:
             # PATCH: None means stop since it was color #0
             if out.threadlist[color_index] is None:
-                out.stop(0, 0)
+                out.stop(x, y)
                 del out.threadlist[color_index]
             else:
-                out.color_change(0, 0)
+                out.color_change(x, y)
                 color_index += 1
             continue
         if ctrl == 0x10:
-- 
2.43.0


From 5e58f0c19a8fc73018246b1da11f4349cd8aa768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 74/82] fix: a translate setting with x and y attributes raised
 a TypeError

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 146d923..7ef7c3f 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -50,7 +50,7 @@ class Transcoder:
         if translate is not None:
             try:
                 self.matrix.post_translate(translate[0], translate[1])
-            except IndexError:
+            except (IndexError, TypeError):
                 try:
                     self.matrix.post_translate(translate.x, translate.y)
                 except AttributeError:
-- 
2.43.0


From 0b5fa4235db5e469ad2de2214a8720d6a40e4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 75/82] fix: reading into a pattern changed the commands and
 threads the pattern already had

---
 pyembroidery/EmbPattern.py | 19 ++++++++++++++-----
 pyembroidery/Vp3Reader.py  |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9a342f5..767a61f 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1510,8 +1510,10 @@ class EmbPattern:
         """Reads fileobject or filename with reader."""
         if reader is None:
             return None
-        if pattern is None:
-            pattern = EmbPattern()
+        out = EmbPattern()
+        if pattern is not None:  # What the pattern already has takes no part in the reading.
+            out._previousX = pattern._previousX
+            out._previousY = pattern._previousY
 
         if EmbPattern.is_str(f):
             text_mode = False
@@ -1521,12 +1523,19 @@ class EmbPattern:
                 pass
             if text_mode:
                 with open(f, "r", encoding="utf8", newline="") as stream:
-                    reader.read(stream, pattern, settings)
+                    reader.read(stream, out, settings)
             else:
                 with open(f, "rb") as stream:
-                    reader.read(stream, pattern, settings)
+                    reader.read(stream, out, settings)
         else:
-            reader.read(f, pattern, settings)
+            reader.read(f, out, settings)
+        if pattern is None:
+            return out
+        pattern.stitches.extend(out.stitches)
+        pattern.threadlist.extend(out.threadlist)
+        pattern.extras.update(out.extras)
+        pattern._previousX = out._previousX
+        pattern._previousY = out._previousY
         return pattern
 
     @staticmethod
diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index dda7f49..c8aaf5a 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 or abs_y != 0 or len(out.stitches) != 0:
+    if abs_x != out._previousX or abs_y != out._previousY or len(out.stitches) != 0:
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
-- 
2.43.0


From 2ac742ef51b37cff2ec3c84dbd262d60560e1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 76/82] fix: stitch blocks and colour blocks ignored thread
 changes that are breaks or needle sets

---
 pyembroidery/EmbPattern.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 767a61f..6d44f94 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -387,17 +387,23 @@ class EmbPattern:
         stitchblock = []
         thread = self.get_thread_or_filler(0)
         thread_index = 1
+        started = False  # a break or needle set before the start only declares the thread.
         for stitch in self.stitches:
             flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 stitchblock.append(stitch)
+                started = True
             else:
                 if len(stitchblock) > 0:
                     yield (stitchblock, thread)
                     stitchblock = []
-                if flags == COLOR_CHANGE:
+                if flags == COLOR_CHANGE or (
+                    started and (flags == COLOR_BREAK or flags == NEEDLE_SET)
+                ):
                     thread = self.get_thread_or_filler(thread_index)
                     thread_index += 1
+                if flags in (COLOR_CHANGE, NEEDLE_SET, SEW_TO, NEEDLE_AT, SEQUIN_EJECT):
+                    started = True
         if len(stitchblock) > 0:
             yield (stitchblock, thread)
 
@@ -423,28 +429,35 @@ class EmbPattern:
         """
         thread_index = 0
         colorblock_start = 0
+        started = False  # a break or needle set before the start only declares the thread.
 
         for pos, stitch in enumerate(self.stitches):
             command = stitch[2] & COMMAND_MASK
             if command == COLOR_BREAK:
                 if colorblock_start != pos:
                     thread = self.get_thread_or_filler(thread_index)
-                    thread_index += 1
+                    if started:
+                        thread_index += 1
                     yield self.stitches[colorblock_start:pos], thread
                 colorblock_start = pos + 1
                 continue
             if command == COLOR_CHANGE:
                 thread = self.get_thread_or_filler(thread_index)
                 thread_index += 1
+                started = True
                 yield self.stitches[colorblock_start : pos + 1], thread
                 colorblock_start = pos + 1
                 continue
             if command == NEEDLE_SET and colorblock_start != pos:
                 thread = self.get_thread_or_filler(thread_index)
-                thread_index += 1
+                if started:
+                    thread_index += 1
+                started = True
                 yield self.stitches[colorblock_start:pos], thread
                 colorblock_start = pos
                 continue
+            if command in (NEEDLE_SET, STITCH, SEW_TO, NEEDLE_AT, SEQUIN_EJECT):
+                started = True
 
         if colorblock_start != len(self.stitches):
             thread = self.get_thread_or_filler(thread_index)
-- 
2.43.0


From 047b427e284fffa12bf759ad383374a076e3c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 77/82] fix: TXT colors ignored thread changes that are needle
 sets

---
 pyembroidery/TxtWriter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index 99ec8be..931d975 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -21,12 +21,16 @@ def write_mimic(pattern, f):
         # define END                 16 /* end of program */
     }
     color = 0
+    started = False  # a needle set before the start only declares the color.
     for i, stitch in enumerate(pattern.stitches):
         xx = stitch[0]
         yy = stitch[1]
         flags = stitch[2]
-        if (flags & COMMAND_MASK) == COLOR_CHANGE:
+        command = flags & COMMAND_MASK
+        if command == COLOR_CHANGE or (started and command == NEEDLE_SET):
             color += 1
+        if command in (STITCH, SEQUIN_EJECT, COLOR_CHANGE, NEEDLE_SET):
+            started = True
         flags = emb_mod_convert.get(flags & COMMAND_MASK)
         if flags is None:
             continue  # embroidermodder has no such command.
@@ -43,13 +47,16 @@ def write_normal(pattern, f):
     names = get_common_name_dictionary()
     color_index = 0
     color = pattern.get_thread_or_filler(color_index).color
+    started = False  # a needle set before the start only declares the color.
     for i, stitch in enumerate(pattern.stitches):
         xx = stitch[0]
         yy = stitch[1]
         flags = stitch[2] & COMMAND_MASK
-        if (flags & COMMAND_MASK) == COLOR_CHANGE:
+        if flags == COLOR_CHANGE or (started and flags == NEEDLE_SET):
             color_index += 1
             color = pattern.get_thread_or_filler(color_index).color
+        if flags in (STITCH, SEQUIN_EJECT, COLOR_CHANGE, NEEDLE_SET):
+            started = True
         named_command = names[(flags & COMMAND_MASK)]
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
             xx,
-- 
2.43.0


From 940c1a40e74e8008421b8bce13f9a147b0c74b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 78/82] fix: PMV files lost points whose command has flags

---
 pyembroidery/PmvWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 717d07b..eebc1b8 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -13,7 +13,7 @@ def write(pattern, f, settings=None):
     min_y = +200000000
     point_count = 0
     for stitch in pattern.stitches:
-        data = stitch[2]
+        data = stitch[2] & COMMAND_MASK
         x = stitch[0]
         y = -stitch[1]
         if data == STITCH or data == JUMP:
-- 
2.43.0


From 0705c9098b4e7b0e32a0b7f145f6ea42e5fe8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 79/82] fix: PEC color thumbnails left out stitches whose
 command has flags

---
 pyembroidery/PecWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3347db2..e1ee96e 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -109,7 +109,7 @@ def write_pec_graphics(pattern, f, extends):
     f.write(bytes(bytearray(blank)))
 
     for block in pattern.get_as_colorblocks():
-        stitches = [s for s in block[0] if s[2] == STITCH]
+        stitches = [s for s in block[0] if s[2] & COMMAND_MASK == STITCH]
         blank = get_blank()  # [ 0 ] * 6 * 38
         draw_scaled(extends, stitches, blank, 6)
         f.write(bytes(bytearray(blank)))
-- 
2.43.0


From 0921e7966dcecf9f97d3dacef0d8d79863a47d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 80/82] fix: get_pattern_interpolate_trim did not see jumps
 whose command has flags

---
 pyembroidery/EmbPattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 6d44f94..2a8ca46 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -872,11 +872,11 @@ class EmbPattern:
                 trimmed = False
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
-            if trimmed or stitch[2] != JUMP:
+            if trimmed or command != JUMP:
                 new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
                 continue
             count = 1
-            while i < ie and self.stitches[i + 1][2] == JUMP:
+            while i < ie and self.stitches[i + 1][2] & COMMAND_MASK == JUMP:
                 i += 1
                 count += 1
             stitch = self.stitches[i]
-- 
2.43.0


From 855a4d410b6c31eb23fe9306043d3e8e7a1b9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 81/82] fix: equal thread colors of different description were
 written as another palette color

---
 pyembroidery/EmbThread.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index af445b5..44db721 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -1,9 +1,13 @@
 def build_unique_palette(thread_palette, threadlist):
     """Turns a threadlist into a unique index list with the thread palette"""
     chart = [None] * len(thread_palette)  # Create a lookup chart.
+    colors = set()
     for thread in set(
         threadlist
     ):  # for each unique color, move closest remaining thread to lookup chart.
+        if thread.color & 0xFFFFFF in colors:
+            continue  # the same color with another description.
+        colors.add(thread.color & 0xFFFFFF)
         index = thread.find_nearest_color_index(thread_palette)
         if index is None:
             break  # No more threads remain in palette
-- 
2.43.0


From 86b55cead80907f63d58126f5bfd3ddc09496acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 82/82] fix: XXX colors after a stop were those of the next
 threads

---
 pyembroidery/XxxWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 09baa35..495ee1a 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -125,6 +125,7 @@ def write_xxx_colors(pattern, f):
 
 
 def write(pattern, f, settings=None):
+    pattern.interpolate_stop_as_duplicate_color()  # stops are color changes in this format.
     write_xxx_header_b(pattern, f)
     place_holder_for_end_of_stitches = f.tell()
     write_int_32le(f, 0x00000000)
-- 
2.43.0

