From 26c71d1fee22361bf75241613df62762b40f21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:12 +0000
Subject: [PATCH 01/27] fix: bounds-check Section.read_string() and
 write_string() on the encoded size

---
 objutils/section.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..a185dec 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -336,6 +336,8 @@ class Section:
             pos = length
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
+        if offset + pos > self.length:
+            raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         return self.data[offset : offset + pos].decode(encoding=encoding)
 
     def write_string(self, addr, value, encoding="latin1", **kws):
@@ -343,10 +345,14 @@ class Section:
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
         if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
+            data = bytes(value, encoding=encoding)
         else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+            data = bytes(value)
+        data_size = len(data)
+        if offset + data_size + 1 > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + data_size] = data
+        self.data[offset + data_size] = 0
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From 6e884634bd9bc0875e3c8a08c125d4afa9a75b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 02/27] fix: joining sections must not modify the sections
 passed in

---
 objutils/section.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index a185dec..a9843bb 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -186,7 +186,7 @@ class Section:
     """
 
     start_address = attr.ib(type=int, eq=True, order=True, default=0)
-    data = attr.ib(default=bytearray(), converter=_data_converter, eq=True, order=True)
+    data = attr.ib(factory=bytearray, converter=_data_converter, eq=True, order=True)
 
     def __attrs_post_init__(self):
         self.repr = reprlib.Repr()
@@ -449,9 +449,9 @@ def join_sections(sections):
         else:
             # Create a new section.
             if isinstance(sections, SortedList):
-                result_sections.add(Section(section.start_address, section.data))
+                result_sections.add(Section(section.start_address, bytearray(section.data)))
             else:
-                result_sections.append(Section(section.start_address, section.data))
+                result_sections.append(Section(section.start_address, bytearray(section.data)))
         prev_section = section
     if result_sections:
         return result_sections
-- 
2.43.0


From b8e5b7d26af6d429992fc7bc116545554da7c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 03/27] fix: Section.write() must check bounds against the
 number of bytes written

---
 objutils/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/section.py b/objutils/section.py
index a9843bb..61c4ab4 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,7 @@ class Section:
 
         data: array-like
         """
+        data = _data_converter(data)
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 8706130bad0c1075a9be20be6bab80e44064620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 04/27] fix: Image.insert_section() must reject data that
 encloses an existing section

---
 objutils/image.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..0add0cf 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -217,7 +217,7 @@ class Image:
         -------
         bool
         """
-        return address in self or (address + length - 1) in self
+        return address in self or any(s.start_address < address + length and address < s.start_address + s.length for s in self.sections)
 
     def insert_section(self, data, start_address=None, join=True):
         """Insert/add a new section to image.
@@ -242,14 +242,16 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
-        self._sections.add(Section(start_address, data))
+        section = Section(start_address, data)
+        length = len(section)
+        if self._address_contained(start_address, length):
+            raise InvalidAddressError("Overlapping address-space")
+        self._sections.add(section)
         if join:
             self.join_sections()
-        self.address = start_address + len(data)
+        self.address = start_address + length
 
     @property
     def sections(self):
-- 
2.43.0


From 0bcb870911ff46b014a82a270ab8958c3a7f3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 05/27] fix: numeric arrays of length zero transfer no element

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 61c4ab4..b5ca95d 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
-- 
2.43.0


From 016b6ee7d59ec286f79b762f780d158f7809845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 06/27] fix: Intel HEX writer must re-emit the extended address
 when the segment changes

---
 objutils/ihex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..d9ad4df 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -117,13 +117,15 @@ class Writer(hexfile.Writer):
 
     def pre_processing(self, image):
         self.previosAddress = None
+        self.previous_segment = None
         self.start_address = 0
 
     def compose_row(self, address, length, row):
         result = ""
         seg, offs = divmod(address, 0x10000)
+        segment = int(seg)
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
+        if offs != self.previosAddress or segment != self.previous_segment:
             # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
             if address > 0xFFFF:
                 if address > 0xFFFFF:
@@ -136,6 +138,7 @@ class Writer(hexfile.Writer):
         address = offs
         checksum = self.checksum(list((length, hi, lo)) + list(row))
         self.previosAddress = offs + length
+        self.previous_segment = segment
         result += f":{length:02X}{address:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
         return result
 
-- 
2.43.0


From 229586d96b24677c1ecda23a1e03b7fb0e301e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 07/27] fix: decode non-negative SLEB128 values correctly

---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..a69bef3 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From 03ff44db7bf09ff95cd4b2e30ce848cfa780f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 08/27] fix: 32-bit reads must not depend on the native size of
 long

---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index a69bef3..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From 120c3289c8e11d91ef14630677a6eb21b56ed278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 09/27] fix: diff_bin() must report a modification that reaches
 the end of the common part

---
 objutils/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/utils/diff.py b/objutils/utils/diff.py
index 56b6c3c..54e7543 100644
--- a/objutils/utils/diff.py
+++ b/objutils/utils/diff.py
@@ -90,6 +90,8 @@ def diff_bin(a, b):
             if diff_bytes_a:
                 tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
                 diff_bytes_a, diff_bytes_b = bytearray(), bytearray()
+    if diff_bytes_a:
+        tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
     if lb > la:
         tmp.append(BinDiff("A", len(a), None, b[-(lb - la) :]))
     elif lb < la:
-- 
2.43.0


From 2139067435ced0d6d133477e921a96a4b7164a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 10/27] fix: Image must accept the valid argument passed by the
 readers

---
 objutils/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index 0add0cf..f3eed55 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -66,9 +66,11 @@ class Image:
         The sections the image should initialized with.
     meta: object
         Arbitrary meta-data.
+    valid: bool
+        `False` if the image results from a file without usable content.
     """
 
-    def __init__(self, sections=None, join=True, meta=None):
+    def __init__(self, sections=None, join=True, meta=None, valid=True):
         if meta is None:
             meta = {}
         if not sections:
@@ -86,6 +88,7 @@ class Image:
         # if meta and not isinstance(meta, MetaRecord):
         #    raise TypeError("meta-data must be of instance 'MetaRecord'")
         self.meta = meta
+        self.valid = valid
 
     def __repr__(self):
         result = []
-- 
2.43.0


From be29d6e4883fd3148521885f1a67708010dae923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 11/27] fix: FPC writer must encode the record length in hex
 and pad to four-byte groups

---
 objutils/fpc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..71a4333 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -142,11 +142,9 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
-            padding = [0] * (lengthToPad)
-            row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        padding = [0] * (-length % 4)  # Records are made of four-byte groups.
+        row.extend(padding)
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From 6e446ae2d3d477a3ae433215ab5a275f75c8dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 12/27] fix: Extended Tektronix writer and reader must agree on
 the record layout

---
 objutils/etek.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..4028869 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,7 +47,7 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length / 2) - 5
+            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
@@ -76,10 +76,10 @@ class Reader(hexfile.Reader):
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 24
+    MAX_ADDRESS_BITS = 20
 
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
+        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
         return line
-- 
2.43.0


From 7908c52aa0e6f0dc8249d1e23802df55538d34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 13/27] fix: ASCII hex space writer must terminate the address
 field

---
 objutils/ash.py     | 1 +
 objutils/hexfile.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..663a3e3 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -65,6 +65,7 @@ class Reader(hexfile.ASCIIHexReader):
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
     ADDRESS_DESIGNATOR = "$A"
+    ADDRESS_TERMINATOR = ","
 
     def __init__(self, address_designator="$A"):
         super().__init__(address_designator)
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..d89a03e 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -471,6 +471,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    ADDRESS_TERMINATOR = ""
     previous_address = None
 
     def __init__(self, address_designator):
@@ -483,7 +484,7 @@ class ASCIIHexWriter(Writer):
         self.previous_address = address + length
         if prepend_address:
             line = "{}\n{}".format(
-                f"{self.address_designator}{address:04X}",
+                f"{self.address_designator}{address:04X}{self.ADDRESS_TERMINATOR}",
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-- 
2.43.0


From be178635b68040d9d64cbf23bc0c02211bf4e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 14/27] fix: accept images that end exactly at the top of the
 address space

---
 objutils/hexfile.py | 5 ++---
 objutils/srec.py    | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index d89a03e..7944dcc 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -24,7 +24,6 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
-import math
 import os
 import re
 from collections import defaultdict, namedtuple
@@ -368,8 +367,8 @@ class Writer(BaseType):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
         else:
             last_segment = image
-        highest_address = last_segment.start_address + last_segment.length
-        return int(math.ceil(math.log(highest_address + 1) / math.log(2)))
+        highest_address = max(last_segment.start_address + last_segment.length - 1, 0)
+        return highest_address.bit_length()
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..504d242 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -153,7 +153,7 @@ class Writer(hexfile.Writer):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
-            highest_address = last_segment.start_address + last_segment.length
+            highest_address = last_segment.start_address + last_segment.length - 1
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
-- 
2.43.0


From 70ffbd8db9e4c34ee17291fe780890efa18411ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 15/27] fix: S-Record header and count records always have
 16-bit addresses

---
 objutils/srec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 504d242..457fd54 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -144,6 +144,7 @@ class Writer(hexfile.Writer):
     start_address = None
 
     MAX_ADDRESS_BITS = 32
+    ADDRESS_LENGTH = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}  # Number of address bytes per record type.
 
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
@@ -160,16 +161,15 @@ class Writer(hexfile.Writer):
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
-        self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
-        self.offset = self.record_type + 2
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        address_length = self.ADDRESS_LENGTH[record_type]
+        length += address_length + 1
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X%0{address_length * 2:d}X%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
-- 
2.43.0


From 82e0c9533206235e70f8c1ac7f552425bbf319f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 16/27] fix: codec objects must not carry addresses over from
 one file to the next

---
 objutils/cosmac.py  |  5 +++++
 objutils/hexfile.py |  3 +++
 objutils/ihex.py    |  4 ++++
 objutils/srec.py    | 17 +++++++++--------
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..4b27f4a 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -43,6 +43,11 @@ class Reader(hexfile.Reader):
     previous_address = 0
     previous_length = 0
 
+    def read(self, fp):
+        self.previous_address = 0
+        self.previous_length = 0
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         return True
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 7944dcc..2a72c30 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -478,6 +478,9 @@ class ASCIIHexWriter(Writer):
         self.address_designator = address_designator
         super().__init__()
 
+    def pre_processing(self, image):
+        self.previous_address = None
+
     def compose_row(self, address, length, row):
         prepend_address = True if address != self.previous_address else False
         self.previous_address = address + length
diff --git a/objutils/ihex.py b/objutils/ihex.py
index d9ad4df..2fa2f8c 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -49,6 +49,10 @@ class Reader(hexfile.Reader):
         super().__init__()
         self.segmentAddress = 0
 
+    def read(self, fp):
+        self._address_calculator = partial(operator.add, 0)  # Extended addresses don't outlive a file.
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         if line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
diff --git a/objutils/srec.py b/objutils/srec.py
index 457fd54..c6a53f0 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -149,18 +149,19 @@ class Writer(hexfile.Writer):
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
     def pre_processing(self, image):
-        if self.record_type is None:
+        self.data_record_type = self.record_type
+        if self.data_record_type is None:
             if hasattr(image, "sections"):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
             highest_address = last_segment.start_address + last_segment.length - 1
             if highest_address <= 0x000000FFFF:
-                self.record_type = 1
+                self.data_record_type = 1
             elif highest_address <= 0x00FFFFFF:
-                self.record_type = 2
+                self.data_record_type = 2
             elif highest_address <= 0xFFFFFFFF:
-                self.record_type = 3
+                self.data_record_type = 3
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
@@ -174,7 +175,7 @@ class Writer(hexfile.Writer):
 
     def compose_row(self, address, length, row):
         self.record_count += 1
-        return self.srecord(self.record_type, length, address, row)
+        return self.srecord(self.data_record_type, length, address, row)
 
     def compose_header(self, meta):
         self.record_count = 0
@@ -189,19 +190,19 @@ class Writer(hexfile.Writer):
         if self.s5record:
             result.append(self.srecord(5, 0, self.record_count))
         if self.start_address is not None:
-            if self.record_type == 1:  # 16bit.
+            if self.data_record_type == 1:  # 16bit.
                 if S9 in meta:
                     s9 = meta[S9][0]
                     result.append(self.srecord(9, 0, s9.address))
                 else:
                     result.append(self.srecord(9, 0, self.start_address))
-            elif self.record_type == 2:  # 24bit.
+            elif self.data_record_type == 2:  # 24bit.
                 if S8 in meta:
                     s8 = meta[S8][0]
                     result.append(self.srecord(8, 0, s8.address))
                 else:
                     result.append(self.srecord(8, 0, self.start_address))
-            elif self.record_type == 3:  # 32bit.
+            elif self.data_record_type == 3:  # 32bit.
                 if S7 in meta:
                     s7 = meta[S7][0]
                     result.append(self.srecord(7, 0, s7.address))
-- 
2.43.0


From 92653eb135c32708baea5ad6ff9b4a30ccc930f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 17/27] fix: reject S-Record and FPC records shorter than or
 differing from their length field

---
 objutils/fpc.py  | 2 ++
 objutils/srec.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 71a4333..234acb8 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -96,6 +96,8 @@ class Reader(hexfile.Reader):
         if format_type == EOF:
             return True
         line.length -= 4
+        if line.length > len(line.chunk):
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
         if format_type == DATA_ABS:
diff --git a/objutils/srec.py b/objutils/srec.py
index c6a53f0..28e9c0f 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -98,7 +98,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and (line.length != len(line.chunk)):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From 2e96f8a07d605fa45e84e93f3864eada7f9db1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 18/27] fix: a refused dump must not truncate the target file

---
 objutils/binfile.py | 3 ++-
 objutils/hexfile.py | 3 ++-
 objutils/shf.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..74656fc 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -67,9 +67,10 @@ class Reader:
 
 class Writer:
     def dump(self, fp, image, filler=b"\xff", **kws):
+        data = self.dumps(image, filler)  # Might raise, i.e. don't touch the file before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, filler))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 2a72c30..bd8854b 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -329,9 +329,10 @@ class Writer(BaseType):
         self.logger = Logger("Writer")
 
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
+        data = self.dumps(image, row_length)  # Might raise, i.e. don't touch the file before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/shf.py b/objutils/shf.py
index faa4f26..71a7b98 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -150,9 +150,10 @@ class Writer:
     logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
+        data = self.dumps(image)  # Might raise, i.e. don't touch the file before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
-- 
2.43.0


From 288c06099bf16454a04e3c7140c5f4d35053147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 19/27] fix: binary writer must honour integer fillers and
 reject empty ones

---
 objutils/binfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 74656fc..ef30c09 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -77,10 +77,12 @@ class Writer:
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
         elif isinstance(filler, int) and filler > 255:
             raise ValueError("filler must be in range 0..255")
+        if isinstance(filler, int):
+            filler = bytes([filler])
         result = bytearray()
         previous_address = None
         previous_length = None
-- 
2.43.0


From ca5bb11591e282891a4f72e938ddc821c5b1de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 20/27] fix: Extended Tektronix reader must reject odd record
 lengths

---
 objutils/etek.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/etek.py b/objutils/etek.py
index 4028869..96dd2de 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,6 +47,8 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
+            if line.length % 2:
+                raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
-- 
2.43.0


From f778ed54a0b7274190d8627cd91c4b165dfe7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 21/27] fix: section name patterns must be applied as regular
 expressions

---
 objutils/elf/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..75b1e41 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -453,9 +453,12 @@ def regexer(value, expr):
     return re_expr.match(value) is not None
 
 
+def register_regexer(dbapi_connection, connection_record):
+    dbapi_connection.create_function("REGEXP", 2, regexer)
+
+
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
@@ -512,6 +515,8 @@ class Model:
             connect_args={"detect_types": sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES},
             native_datetime=True,
         )
+        # SQLAlchemy comes with its own REGEXP function (with swapped arguments), ours must be registered afterwards.
+        event.listen(self._engine, "connect", register_regexer)
 
         self._session = orm.Session(self._engine, autoflush=True, autocommit=False)
 
-- 
2.43.0


From f9e5fbcac8ee7c66045b03695aaf6203e3525205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 22/27] fix: FPC reader accepts records whose length field
 disagrees with their data by more than the padding

---
 objutils/fpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 234acb8..157bb43 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -96,7 +96,8 @@ class Reader(hexfile.Reader):
         if format_type == EOF:
             return True
         line.length -= 4
-        if line.length > len(line.chunk):
+        padding = len(line.chunk) - line.length
+        if line.length < 0 or not 0 <= padding < 4:  # Records are made of four-byte groups.
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
-- 
2.43.0


From 2e4754132f5d5347fa060bdb399709b82c01a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 23/27] fix: S-Record count of more than 65535 data records
 needs an S6 record

---
 objutils/srec.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 28e9c0f..6378ce0 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -144,7 +144,7 @@ class Writer(hexfile.Writer):
     start_address = None
 
     MAX_ADDRESS_BITS = 32
-    ADDRESS_LENGTH = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}  # Number of address bytes per record type.
+    ADDRESS_LENGTH = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 6: 3, 7: 4, 8: 3, 9: 2}  # Number of address bytes per record type.
 
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
@@ -188,7 +188,10 @@ class Writer(hexfile.Writer):
     def compose_footer(self, meta):
         result = []
         if self.s5record:
-            result.append(self.srecord(5, 0, self.record_count))
+            if self.record_count <= 0xFFFF:
+                result.append(self.srecord(5, 0, self.record_count))
+            elif self.record_count <= 0xFFFFFF:  # 24bit count.
+                result.append(self.srecord(6, 0, self.record_count))
         if self.start_address is not None:
             if self.data_record_type == 1:  # 16bit.
                 if S9 in meta:
-- 
2.43.0


From 30c05ff9a64546deed89d98a5b294eacce55a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 24/27] fix: ELF files without a string table for section or
 symbol names

---
 objutils/elf/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..4be686b 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -570,9 +570,10 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry > len(self._images[table_index]):
+        table = self._images.get(table_index)
+        if not table or entry >= len(table):
             return ""
-        name = self.asciiCString.parse(self._images[table_index][entry:])
+        name = self.asciiCString.parse(table[entry:])
         return name
 
     def _parse_program_headers(self):
-- 
2.43.0


From af922c5a8669574f7ed64725940e1e47608d28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 25/27] fix: ELF files with an empty symbol table

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 4be686b..51ac7e0 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -655,7 +655,7 @@ class ElfParser:
             )
         symbol_cache = {}
         # num_symbols = len(section.image) // Symbol.sizeof()
-        for offset in range(0, len(section.image), Symbol.sizeof()):
+        for offset in range(0, len(section.image or b""), Symbol.sizeof()):
             try:
                 sym = Symbol.parse(section.image[offset : offset + Symbol.sizeof()])
             except StreamError as e:
-- 
2.43.0


From a8e00cca2ac82fc8e3fd2aa77842ff3f07c456ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 26/27] fix: ELF comment sections which are not ASCII or not
 terminated

---
 objutils/elf/__init__.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 51ac7e0..e2d7a77 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -692,21 +692,9 @@ class ElfParser:
             print(f"{e}")
 
     def _parse_comment(self, data):
-        Line = Struct("line" / CString("ascii"), "pos" / Tell)
         if not data:
             return ""
-        length = len(data)
-        result = []
-        i = 0
-        if data.find(b"\x00") == -1:
-            return str(data, "ascii")
-        while i < length:
-            # print("*** LINE", data[i : ])
-            line = Line.parse(data[i:])
-            if line.line:
-                result.append(line.line)
-            i += line.pos
-        return "\n".join(result)
+        return "\n".join(line for line in str(data, "ascii", "replace").split("\x00") if line)
 
     def _parse_note(self, data):
         Note = Struct(
-- 
2.43.0


From fc3793419b85549a2a9c4192f94e619a35c735f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 27/27] fix: ELF note sections without a note or with an empty
 name

---
 objutils/elf/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e2d7a77..5b74756 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -706,9 +706,13 @@ class ElfParser:
         )
         if not data:
             return None
-        result = Note.parse(data)
+        try:
+            result = Note.parse(data)
+        except StreamError as e:
+            print(f"parse note section: {e}")
+            return None
         result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result.name = str(result.name, "ascii", "replace").split("\x00")[0]
         return result
 
     def debug_sections(self):
-- 
2.43.0

