From 4de8fc2329d5772b60233e248d05e837ad816f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 01/69] fix: compute the length field size with integers (float
 log is off near powers of 256)

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 src/DLMS_SPODES/types/cosem_pdu.py         | 6 +++---
 src/DLMS_SPODES/types/useful_types.py      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..cc006dc 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -53,7 +53,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..808f5d1 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -17,7 +17,7 @@ def decide_len(length: int) -> int:
     elif length < 0x1_00_00_00_00:
         return 5
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return 1 + amount
 
 
@@ -59,7 +59,7 @@ class Buffer(ByteBuffer):
                                0x84, length)
             return 5
         else:
-            amount = int(log(length, 256)) + 1
+            amount = (length.bit_length() + 7) // 8
             ret: int = self.put_int(0x80 + amount)
             length: bytes = length.to_bytes(amount, byteorder='big')
             return ret + self.write(length)
@@ -81,7 +81,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..dd2832a 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -27,7 +27,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
-- 
2.43.0


From df1ad0f487dce4a84f5890a768628aa00829746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 02/69] fix: refuse a length field whose octets are truncated

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 src/DLMS_SPODES/types/useful_types.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index cc006dc..1732f0b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'Length octets are truncated: expected {content_start}, but got {len(input_pdu)}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index dd2832a..109e976 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -41,6 +41,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'Length octets are truncated: expected {content_start}, but got {len(input_pdu)}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From 7ab633df4294f4cbbbb7935469cdb1c2e46926fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 03/69] fix: convert integer text without going through float
 (64-bit values lost precision)

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 1732f0b..9b87772 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -463,7 +463,11 @@ class Digital(ABC):
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            number = int(value)
+        except ValueError:
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From fadf547652d9dc829502044c1cd0235ce94ee657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 04/69] fix: refuse raw integer contents of the wrong width

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9b87772..4f8300d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -416,7 +416,7 @@ class Digital(ABC):
                     case self.TAG:                                                     raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                         F'{self.LENGTH}, but got {len(length_and_contents)}')
                     case _ as wrong_tag:                                               raise ValueError(F'Expected {self.TAG} type, got {TAG(wrong_tag)}')
-            case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == self.LENGTH:                             self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str('-') if self.SIGNED:                                              self.contents = bytes(self.LENGTH)
             case int() | float():                                                      self.contents = self.from_int(value)
             case str():                                                                self.contents = self.from_str(value)
-- 
2.43.0


From 0009feda809927f85d9039ba27b50687df69deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 05/69] fix: BitString from bytearray takes the contents over

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4f8300d..960e090 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1476,7 +1476,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
-- 
2.43.0


From 37875f52422bc62a94752e4d86cba90abe236661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 06/69] fix: Conformance refuses values that are not 24 bits

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..fa070f1 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -52,6 +52,8 @@ class Conformance(cdt.BitString):
             case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value)} bits, expected {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
@@ -60,8 +62,8 @@ class Conformance(cdt.BitString):
         return value
 
     def from_int(self, value: int) -> bytes:
-        if value < 0:
-            raise ValueError
+        if not 0 <= value < 1 << len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {value}, expected {len(self)} bits')
         res = 0
         start_bit = 2 ** (len(self) - 1)
         for i in range(len(self)):
@@ -70,6 +72,8 @@ class Conformance(cdt.BitString):
         return res.to_bytes(len(self) // 8, byteorder='big')
 
     def from_bytearray(self, value: bytearray) -> bytes:
+        if len(value) << 3 != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value) << 3} bits, expected {len(self)}')
         return bytes(value)
 
     @classmethod
-- 
2.43.0


From 1e7617d30fac43275f3862cde3304ac90068b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 07/69] fix: Conformance refuses a bit string of another size

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index fa070f1..a41d741 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -35,9 +35,9 @@ class Conformance(cdt.BitString):
     default = '011111111111111111111111'  # zero only 1 bit
 
     def __init__(self, value: bytes | bytearray | str | int | cdt.BitString = None):
+        if isinstance(value, cdt.BitString) and len(value) != len(self.ELEMENTS):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value)} bits, expected {len(self.ELEMENTS)}')
         super(Conformance, self).__init__(value)
-        if self.ELEMENTS is not None and len(self) != len(self.ELEMENTS):
-            raise ValueError(F'For {self.__class__.__name__} get {len(self)} bits, expected {len(self.ELEMENTS)}')
 
     def __len__(self):
         return len(self.ELEMENTS)
-- 
2.43.0


From 277f6bcd6fbb6270496a35736492838e20dcfc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 08/69] fix: Conformance reports a wrong tag instead of failing
 on a missing attribute

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index a41d741..5666f0c 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -49,7 +49,7 @@ class Conformance(cdt.BitString):
         match value[:1]:
             case self.TAG if len(self) <= len(pdu) * 8: return pdu[:3]
             case self.TAG:                              raise ValueError(F'Got pdu length:{len(pdu)}, expected at least {len(self) >> 3}')
-            case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
+            case _ as error:                            raise TypeError(F'Expected {self.TAG} type, got {cdt.TAG(error)}')
 
     def from_str(self, value: str) -> bytes:
         if len(value) != len(self):
-- 
2.43.0


From e3cf5f6b5c81d33686bcc9bb64a49768d55a8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 09/69] fix: encode and decode floats as IEEE 754 (wrong
 exponent bias, zero, subnormal and special values)

---
 src/DLMS_SPODES/types/common_data_types.py | 27 +++++-----------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 960e090..d96b462 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -621,30 +621,15 @@ class Float(ABC):
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
         if 'inf' in str(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack(self.__struct_format(), value)
+
+    def __struct_format(self) -> str:
+        """ IEEE 60559 binary32 or binary64 """
+        return {4: ">f", 8: ">d"}[len(self)]
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack(self.__struct_format(), self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From d88d3b75bb6b5554e5e4eebfbcc48a24b78535fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 10/69] fix: Float keeps the width of its contents when built
 from octets or another float

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d96b462..c7b6ced 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -595,11 +595,14 @@ class Float(ABC):
                     case self.TAG, _:                                              raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                     F'{len(self)}, but got {len(length_and_contents)}')
                     case _ as wrong_tag, _:                                        raise ValueError(F'Expected {self.TAG} type, got {get_common_data_type_from(wrong_tag).TAG}')
+            case bytearray() if len(value) != len(self):                           raise ValueError(F'Length of contents for {self.TAG} must be {len(self)}, '
+                                                                                                    F'but got {len(value)}')
             case bytearray():                                                      self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
             case float():                                                          self.contents = self.from_float(value)
-            case Float():                                                          self.contents = value.contents
+            case Float() if len(value) == len(self):                               self.contents = value.contents
+            case Float():                                                          self.contents = self.from_float(value.decode())
             case _:                                                                raise ValueError(F'Error create {self.TAG} with value {value}')
 
     def from_str(self, value: str) -> bytes:
-- 
2.43.0


From 28068ac35b4383880ebc0af8d93c380927bae196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 11/69] fix: Float.clear works on a value that is set

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c7b6ced..f99cbae 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -644,7 +644,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
-- 
2.43.0


From 6ef695bfa6bb3cdfc83998234880b0a8b5ab6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 12/69] fix: clear of Boolean, Bcd, DateTime, Date and Time
 works on a value that is set

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f99cbae..8a9eb85 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -725,7 +725,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1445,7 +1445,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1712,7 +1712,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From 8eef85debd16e83e806765b4e1766f869e4381bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 13/69] fix: the frame length field holds 11 bits, longer
 lengths overwrote the segmentation bit and the type

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..7a60ac9 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if 0 <= length <= 0b111_11111111:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
@@ -46,7 +46,7 @@ class Format:
                     value |= 0b1010_0_00000000000
                 self.__content = pack('>H', value)
             else:
-                raise ValueError(F'Frame length overflow, max be 2048, got {length}')
+                raise ValueError(F'Frame length overflow, max be 2047, got {length}')
 
     @property
     def content(self) -> bytes:
-- 
2.43.0


From c0ee446492eda9c81395b2c8a476df357258d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 14/69] fix: refuse HDLC address parts outside 0..16383 instead
 of truncating them

---
 src/DLMS_SPODES/hdlc/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 7a60ac9..38896e6 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -114,6 +114,9 @@ class Address:
             else:
                 self.__content = content
         else:
+            for part in (upper_address, lower_address):
+                if part is not None and not 0 <= part <= 0x3fff:
+                    raise ValueError(F"got {part} in {upper_address=}, {lower_address=}, expected 0..16383")
             # calculate length
             if not lower_address:
                 if (upper_address & self.__MASK) == 0:
-- 
2.43.0


From c6bdeca6af65cb61dc6247c2f9381647d543160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 15/69] fix: refuse incomplete HDLC addresses and end bits at a
 wrong place

---
 src/DLMS_SPODES/hdlc/frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 38896e6..c06b938 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -111,6 +111,8 @@ class Address:
         if content is not None:
             if len(content) not in (1, 2, 4):
                 raise ValueError(F"got length Frame from content {len(content)}, expected 1, 2 or 4")
+            elif [it & 1 for it in content] != [0] * (len(content) - 1) + [1]:
+                raise ValueError(F"got address {content.hex(' ')}, expected end bit in the last octet only")
             else:
                 self.__content = content
         else:
@@ -155,7 +157,7 @@ class Address:
     @classmethod
     def from_frame(cls, value: bytearray) -> Address:
         for it in (0, 1, 3):
-            if value[it] % 2 == 1:
+            if it < len(value) and value[it] % 2 == 1:
                 match it:
                     case 0: new = cls(bytes(value[:1])); break
                     case 1: new = cls(bytes(value[:2])); break
-- 
2.43.0


From b79f90a18513e2053428e6e5f9b02a645422317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 16/69] fix: a frame too short for its control field is a wrong
 frame, not an IndexError

---
 src/DLMS_SPODES/hdlc/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index c06b938..54fcd24 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -552,6 +552,8 @@ class Control(IntFlag):
 
     @classmethod
     def from_frame(cls, value: bytearray) -> Control:
+        if len(value) == 0:
+            raise ValueError('HDLC control field is absent')
         return Control(value.pop(0))
 
     @property
-- 
2.43.0


From 22f6c26d8a92b2c385a66c3b51e71147eb1c97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 17/69] fix: too little data for the LLC header is refused with
 ValueError

---
 src/DLMS_SPODES/hdlc/sub_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/sub_layer.py b/src/DLMS_SPODES/hdlc/sub_layer.py
index 3a68c1f..2944f4d 100644
--- a/src/DLMS_SPODES/hdlc/sub_layer.py
+++ b/src/DLMS_SPODES/hdlc/sub_layer.py
@@ -15,6 +15,8 @@ class LLC:
     def __init__(self, content: bytearray = None,
                  message: bytes = None):
         if message is None:
+            if len(content) < 3:
+                raise ValueError(F'LLC header is 3 octets, got {len(content)}')
             self.__destination_lsap = content.pop(0)
             if self.__destination_lsap not in (self.__DESTINATION__LSAP, self.__BROADCAST):
                 raise ValueError(F'Destination tag wrong, expected {hex(self.__DESTINATION__LSAP), hex(self.__BROADCAST)}, got {hex(self.__destination_lsap)}')
-- 
2.43.0


From 0ce8402003e48d4be3dd5ebf702402acf11c5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 18/69] fix: the negotiated receive window carried the transmit
 window

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..71441af 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -120,7 +120,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
-- 
2.43.0


From 9ebc5d3c5d097ab85559807b6fc38f395fe9a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 19/69] fix: the negotiation field with all four parameters did
 not fit into its buffer

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 71441af..e05215e 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -4,7 +4,7 @@ from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
-- 
2.43.0


From fcbeae77dfbc2fa575dc2efb8754610c482a5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 20/69] fix: refuse negotiation parameters whose octets are
 truncated

---
 src/DLMS_SPODES/hdlc/negotiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index e05215e..0498113 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -30,6 +30,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if data_len >= len(data):
+                raise IndexError(F"got parameter length {data_len}, but {len(data) - 1} octets left")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -38,6 +40,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if data_len >= len(data):
+                raise IndexError(F"got parameter length {data_len}, but {len(data) - 1} octets left")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
-- 
2.43.0


From 18e62f34e2de11c648d268bb973ad412a99e33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 21/69] fix: the negotiation field follows the parameters after
 they are changed

---
 src/DLMS_SPODES/hdlc/negotiation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 0498113..b3509fe 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import cached_property
 from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
@@ -76,12 +75,10 @@ class Negotiation(Info):
                                 case wrong_tag:
                                     raise ValueError(F"got {wrong_tag=}, expected ")
             self.max_info_receive, self.max_info_transmit, self.window_receive, self.window_transmit = i_rx, i_tx, w_rx, w_tx
-            if hasattr(self, "SNRM"):
-                del self.SNRM
         except IndexError as e:
             raise ValueError(F"got wrong UA {content.hex(' ')}")
 
-    @cached_property
+    @property
     def SNRM(self) -> memoryview:
         def small_pack(field: int, data: int):
             nonlocal buf, offset
-- 
2.43.0


From 130f62403c1d178b65c2c638cb44e6c3a28e73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 22/69] fix: versions are equal when their numbers are, not
 when their hashes are

---
 src/DLMS_SPODES/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..112c304 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -51,7 +51,7 @@ class AppVersion:
         return self.__additional
 
     def __eq__(self, other: AppVersion):
-        return hash(self) == hash(other) and self.__additional == other.additional
+        return (self.__major, self.__minor, self.__patch, self.__additional) == (other.major, other.minor, other.patch, other.additional)
 
     def __gt__(self, other: AppVersion):
         if self.__major > other.major:
-- 
2.43.0


From 207aea16984251e1e95614a44739693e3b4a048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 23/69] fix: a version without patch number is ordered before
 those with one instead of failing

---
 src/DLMS_SPODES/version.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index 112c304..bab6672 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -64,6 +64,8 @@ class AppVersion:
             return False
         if self.__patch is None:
             return False
+        elif other.patch is None:
+            return True
         elif self.__patch > other.patch:
             return True
         else:
@@ -79,6 +81,8 @@ class AppVersion:
         elif self.__minor < other.minor:
             return False
         if self.__patch is None:
+            return other.patch is None
+        elif other.patch is None:
             return True
         elif self.__patch > other.patch:
             return True
@@ -106,4 +110,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and self >= var, variants), default=None)
-- 
2.43.0


From bc14030d5a8cd2a3e4273b20482e18a8d1c743ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 24/69] fix: refuse raw contents of the wrong width for
 DateTime, Date and Time

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8a9eb85..7e4bd0d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -669,6 +669,8 @@ class __DateTime(ABC):
                     case _ as wrong_tag:
                         raise ValueError(F"got {TAG(wrong_tag)}, expected {self.TAG} type")
             case None:                                                                 self.clear()
+            case bytearray() if len(value) != len(self):
+                raise ValueError(F"length of contents for {self.TAG} must be {len(self)}, but got {len(value)}")
             case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                                self.contents = self.from_str(value)
             case datetime.datetime():                                                  self.contents = self.from_datetime(value)
-- 
2.43.0


From 63f789db60bcd3b4758eb2051cdb78aa18d232fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 25/69] fix: refuse hundredths of second above 99

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7e4bd0d..93f958f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -975,7 +975,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        hour, minute, second, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(hour, minute, second, hundredths * 10_000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From 7d62248bb9bd8f38765e42b569e7f94e253654db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 26/69] fix: a week day with an unspecified day of month is not
 compared with the first of the month

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 93f958f..867ea77 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -815,7 +815,7 @@ class __Date(ABC):
             value[4:5].replace(b'\xff', b'\x01')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
-- 
2.43.0


From 08166e199677b1ba9b0f0426b700c2e4dd77dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 27/69] fix: refuse week days other than 1..7 and 255 in every
 date

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 867ea77..7ea7c3a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -813,6 +813,8 @@ class __Date(ABC):
             value[0:2].replace(b'\xff\xff', b'\x01\x00') + \
             value[2:4].replace(b'\xff', b'\x01').replace(b'\xfe', b'\x01').replace(b'\xfd', b'\x01') + \
             value[4:5].replace(b'\xff', b'\x01')
+        if not 1 <= day_of_week <= 7:
+            raise ValueError(F'Error init Data: got week day {day_of_week}, expected 1..7, 255')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
                 value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
-- 
2.43.0


From 88d6d84728661710245ab33db1cba7a203f97087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 28/69] fix: set_year accepts year 1 as its message states

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7ea7c3a..04080cf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -769,7 +769,7 @@ class __Date(ABC):
 
     def set_year(self, value: int):
         """ set day """
-        if (9999 >= value > 1) or value == 0xffff:
+        if (9999 >= value >= 1) or value == 0xffff:
             contents = bytearray(self.contents)
             contents[:2] = value.to_bytes(2, 'big')
             self.set(contents)
-- 
2.43.0


From 7f84d1badd4f4653e6223a1faacbb230ef47fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 29/69] fix: set_weekday refuses values outside 1..7, 255
 instead of ignoring them

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 04080cf..2d5e184 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -800,6 +800,8 @@ class __Date(ABC):
             contents = bytearray(self.contents)
             contents[4] = value
             self.set(contents)
+        else:
+            raise ValueError(F'Weekday out of range, got {value}, expected 1..7, 255')
 
     @abstractmethod
     def decode(self) -> datetime.datetime:
-- 
2.43.0


From b2835925ac11b6a09edb69876ed860a41dcd5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 30/69] fix: set_clock_status replaces the status octet instead
 of failing

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 2d5e184..46447ce 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2061,7 +2061,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        self.__dict__['contents'] = self.contents[:11] + int(value).to_bytes(1, 'big')
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From 420178b6d0653027c24e41e30c2468b826c4b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 31/69] fix: DateTime text with a negative deviation

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 46447ce..ea050a5 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2026,7 +2026,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
-- 
2.43.0


From 674682a1c726a844f6a3e2edf9f5ef1e1ae51d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 32/69] fix: DateTime carries negative deviations as signed
 minutes from and to host date-times

---
 src/DLMS_SPODES/types/common_data_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ea050a5..ce79f82 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2039,9 +2039,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def from_datetime(self, value: datetime.datetime) -> bytes:
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
-            case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
-        return pack('>HBBBBBBBH',
+            case None: deviation = -0x8000
+            case _:    deviation = value.utcoffset() // datetime.timedelta(minutes=1)
+        return pack('>HBBBBBBBh',
                     value.year,
                     value.month,
                     value.day,
@@ -2075,7 +2075,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def decode(self) -> datetime.datetime:
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), "big", signed=True)
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2083,7 +2083,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
-- 
2.43.0


From 61ff8b74bc34151c266d5b5dc44b2c32944d080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 33/69] fix: time_zone returned a zone only for deviations of
 720 minutes and above

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ce79f82..929da91 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2088,10 +2088,10 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = int.from_bytes(self.contents[9:11], "big", signed=True)
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From 81acca9739bfc573e2921ed36c566fd4c23113eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 34/69] fix: the end of a buffer is a valid position, an empty
 value has no other

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..3ab7af7 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
-- 
2.43.0


From c80dea3ff463a5535b6cc4dbeb8d429eb5468a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 35/69] fix: buffer reads and writes at a given position are
 checked at that position

---
 src/DLMS_SPODES/types/byte_buffer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 3ab7af7..dc57690 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,9 +30,9 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
-        if self.remaining(pos) < space:
+        if pos < 0 or space < 0 or self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
 
     def read(self, length: int = 1) -> memoryview:
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
-- 
2.43.0


From cbe3055ad877542f305561e6f99ab30cb073f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 36/69] fix: writing zero octets to a buffer wrote all of them

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index dc57690..5628e52 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -61,7 +61,7 @@ class ByteBuffer:
                   pos: int,
                   length: int = None) -> int:
         """keep data to position, return length data"""
-        if not length:
+        if length is None:
             length = len(value)
         self._check_space(length, pos)
         self.buf[pos: pos + length] = value
-- 
2.43.0


From 74ba8d7f15979022f0b3b2743b3fd7cf390c0d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 37/69] fix: the number of length octets in a buffer is the
 seven low bits, a truncated read keeps the position

---
 src/DLMS_SPODES/types/cosem_pdu.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 808f5d1..6734e77 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -32,15 +32,25 @@ class Buffer(ByteBuffer):
 
     def get_length(self) -> int:
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
+        pos = self.get_pos()
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            try:
+                return self.get_uint(define_length & 0b01111111)
+            except BufferError:
+                self.set_pos(pos)
+                raise
         else:
             return define_length
 
     def read_by_length(self, length: int = None) -> memoryview:
         """with check length"""
-        return self.read(self.get_length())
+        pos = self.get_pos()
+        try:
+            return self.read(self.get_length())
+        except BufferError:
+            self.set_pos(pos)
+            raise
 
     def put_len(self, length: int) -> int:
         """ put length to buffer, increase position"""
-- 
2.43.0


From d9d0550655dffb2464a863b010c97ed90e4808e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 38/69] fix: long length fields were put at the start of the
 buffer without advancing the position

---
 src/DLMS_SPODES/types/cosem_pdu.py | 27 ++-------------------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 6734e77..f83e72c 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -1,7 +1,7 @@
 from abc import ABC, abstractmethod
 from typing import Self, Type
 from dataclasses import dataclass
-from struct import pack, pack_into, Struct
+from struct import pack
 from math import log
 from .byte_buffer import ByteBuffer
 
@@ -21,11 +21,6 @@ def decide_len(length: int) -> int:
         return 1 + amount
 
 
-_length1 = Struct("> B B")
-_length2 = Struct("> B H")
-_length4 = Struct("> B L")
-
-
 class Buffer(ByteBuffer):
     """Cosem pdu buffer implementation"""
     __slots__ = ByteBuffer.__slots__
@@ -54,25 +49,7 @@ class Buffer(ByteBuffer):
 
     def put_len(self, length: int) -> int:
         """ put length to buffer, increase position"""
-        if length < 0x80:
-            return self.put_int(length)
-        elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
-        elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
-        elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
-        else:
-            amount = (length.bit_length() + 7) // 8
-            ret: int = self.put_int(0x80 + amount)
-            length: bytes = length.to_bytes(amount, byteorder='big')
-            return ret + self.write(length)
+        return self.write(encode_length(length))
 
     def write_with_length(self, value: memoryview) -> int:
         """ write to buffer, increase position"""
-- 
2.43.0


From fe7270f75859132556ce2e733412bbb3bb2b0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 39/69] fix: octets that do not fit left their length field in
 the buffer

---
 src/DLMS_SPODES/types/cosem_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index f83e72c..1af2b14 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -53,6 +53,7 @@ class Buffer(ByteBuffer):
 
     def write_with_length(self, value: memoryview) -> int:
         """ write to buffer, increase position"""
+        self._check_space(decide_len(len(value)) + len(value))
         ret: int = self.put_len(len(value))
         return ret + self.write(value)
 
-- 
2.43.0


From b4ce6f0ac9d0fda82a5ea58fdfc1d1c7b2021e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 40/69] fix: protocol integers are decoded from all their
 octets, not from the first

---
 src/DLMS_SPODES/types/useful_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 109e976..d8af72b 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -633,7 +633,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if cls.LENGTH > len(value):
+            raise ValueError(F"for {cls.__name__} got content length={len(value)}, expected at least {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 8e30efce68044ec8ae54d4577f3ffea57bb92224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 41/69] fix: protocol octet strings are built from their
 octets, the length field belongs to the encoding

---
 src/DLMS_SPODES/types/useful_types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index d8af72b..9884ab3 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -147,11 +147,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = value
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
-- 
2.43.0


From 1b2c98d928c431117d0039500ff64255c03632e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 42/69] fix: OctetString6 has 6 octets

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 9884ab3..5e120cd 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -205,7 +205,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
-- 
2.43.0


From 06c4c7b63ed9443a597758228c7aecc14fa37a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 43/69] fix: BOOLEAN.from_str refused every text

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 5e120cd..e613db4 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -483,9 +483,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
-- 
2.43.0


From 1538c568b211ca599f228ea9d2ef5402929d45ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 44/69] fix: sequences are decoded and encoded element by
 element (decoding failed, nested sequences could not be encoded)

---
 src/DLMS_SPODES/types/useful_types.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index e613db4..2ff8949 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -73,7 +73,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
@@ -87,8 +87,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
@@ -97,8 +97,6 @@ class Sequence(UT, ABC):
         for f in fields(cls):
             new, value = get_instance_and_context(f.type, value)
             values.append(new)
-            if not len(value):
-                break
         return cls(*values)
 
     def __str__(self):
-- 
2.43.0


From ffd311c8ce8decf7ffd9a6bfecbd7a3a2a5a2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 45/69] fix: a bit string could not be encoded after a bit was
 inverted

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 2ff8949..e502c28 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -545,11 +545,11 @@ class BitString(UT):
         return ''.join(map(str, self.value))
 
     def __setitem__(self, key: int, value: int | bool):
-        self.value[key] = value
+        self.value[key] = int(value)
 
     def inverse(self, index: int):
         """ inverse one bit by index"""
-        self.value[index] = not self.value[index]
+        self.value[index] = int(not self.value[index])
 
     # def __lshift__(self, other):
     #     for i in range(other):
-- 
2.43.0


From ac63688eb532967579ff5076e9d07750ec972c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 46/69] fix: refuse invoke identifiers outside 0..15 instead of
 overwriting the flags

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index e502c28..7e37fb8 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -816,6 +816,10 @@ class InvokeIdAndPriority(Unsigned8):
     service_class: ServiceClass
     priority: Priority
 
+    def __post_init__(self):
+        if not 0 <= self.invoke_id <= 0b0000_1111:
+            raise ValueError(F"for {self.__class__.__name__} got invoke_id={self.invoke_id}, expected 0..15")
+
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
         if cls.LENGTH > len(value):  # todo: copypast from DigitalMixin
-- 
2.43.0


From 2f0d0a13ee92f995a6ace643a04b65d0e9ff6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 47/69] fix: alternatives of Data that share a type were
 encoded with the tag of the first of them

---
 src/DLMS_SPODES/types/useful_types.py | 32 ++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 7e37fb8..14d4ac3 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -347,6 +347,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -458,6 +461,21 @@ class Null(UT):
 NULL = Null()
 
 
+class DontCare(Null):
+    __slots__ = tuple()
+
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return DONT_CARE
+
+    @classmethod
+    def from_str(cls, value: str):
+        return DONT_CARE
+
+
+DONT_CARE = DontCare()
+
+
 class BOOLEAN(UT):
     value: bool
     __slots__ = ("value",)
@@ -712,6 +730,14 @@ class Unsigned64(INTEGER, UT):
     SIGNED = False
 
 
+class BCD(Integer8):
+    """ bcd of Data """
+
+
+class Enum(Unsigned8):
+    """ enum of Data """
+
+
 class AccessSelectionParameters(Unsigned8):
     """ Unsigned8(0..1) """
 
@@ -950,7 +976,7 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=BCD),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
@@ -958,11 +984,11 @@ class Data(Choice):
         # ChoiceElement(name="compact-array",         tag=19, type=...),
         ChoiceElement(name="long64",                tag=20, type=Integer64),
         ChoiceElement(name="long64-unsigned",       tag=21, type=Unsigned64),
-        ChoiceElement(name="enum",                  tag=22, type=Unsigned8),
+        ChoiceElement(name="enum",                  tag=22, type=Enum),
         # ChoiceElement(name="float32",               tag=23, IMPLICIT   OCTET STRING (SIZE(4)),
         # ChoiceElement(name="float64",               tag=24,  IMPLICIT   OCTET STRING (SIZE(8)),
         # ChoiceElement(name="date-time",             tag=25,  IMPLICIT   OCTET STRING (SIZE(12)),
         # ChoiceElement(name="date",                  tag=26,  IMPLICIT   OCTET STRING (SIZE(5)),
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
-        ChoiceElement(name="dont-care",             tag=255, type=Null)
+        ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
-- 
2.43.0


From 0e5ee0cc6bab7169bfc54fae170ddbdf1a88790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 48/69] fix: the parameters of a selective access descriptor
 are Data, not the placeholder defined before it

---
 src/DLMS_SPODES/types/useful_types.py | 44 +++++++++++++--------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 14d4ac3..988af3f 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -942,28 +942,6 @@ class CosemObjectMethodId(Integer8):
     """Cosem-Object-Method-Id"""
 
 
-@dataclass
-class SelectiveAccessDescriptor(Sequence):
-    """COSEMpdu_GB83 Selective-Access-Descriptor"""
-    access_selector: Unsigned8
-    access_parameters: Data
-
-
-@dataclass
-class CosemAttributeDescriptor(Sequence):
-    """COSEMpdu_GB83 Cosem-Attribute-Descriptor"""
-    class_id: CosemClassId
-    instance_id: CosemObjectInstanceId
-    attribute_id: CosemObjectAttributeId
-
-
-@dataclass
-class CosemMethodDescriptor(Sequence):
-    class_id: CosemClassId
-    instance_id: CosemObjectInstanceId
-    method_id: CosemObjectMethodId
-
-
 class Data(Choice):
     ELEMENTS = (
         ChoiceElement(name="null-data",             tag=0,  type=Null),
@@ -992,3 +970,25 @@ class Data(Choice):
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
         ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
+
+
+@dataclass
+class SelectiveAccessDescriptor(Sequence):
+    """COSEMpdu_GB83 Selective-Access-Descriptor"""
+    access_selector: Unsigned8
+    access_parameters: Data
+
+
+@dataclass
+class CosemAttributeDescriptor(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor"""
+    class_id: CosemClassId
+    instance_id: CosemObjectInstanceId
+    attribute_id: CosemObjectAttributeId
+
+
+@dataclass
+class CosemMethodDescriptor(Sequence):
+    class_id: CosemClassId
+    instance_id: CosemObjectInstanceId
+    method_id: CosemObjectMethodId
-- 
2.43.0


From 9bcee47d5a88dbeb6733bf1d786c657fdd8fbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 49/69] fix: elements of choices and sequences are returned,
 not raised

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 1af2b14..a922813 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -626,7 +626,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -664,7 +664,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From 154c1a7cb4dea1f4f393616c6e77ddad06786b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 50/69] fix: protocol integers of a buffer are compared by
 value

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index a922813..5cdd77d 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -267,7 +267,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
-- 
2.43.0


From 4eb89e2aefcbd99beb58ac437ce54cffb2c82987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 51/69] fix: values of fixed size are refused with other sizes

---
 src/DLMS_SPODES/types/cosem_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 5cdd77d..8d754b6 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -132,6 +132,7 @@ class Simple(UT, ABC):
 
     def __init__(self, value: memoryview):
         self.contents = value
+        self.validate()
 
     def validate(self):
         if not (len(self) == -1 or len(self) == len(self.contents)):
@@ -170,6 +171,8 @@ class Simple(UT, ABC):
 
 
 class VarSizeMixin(Simple, ABC):
+    def validate(self):
+        """any number of octets"""
     def __len__(self) -> int:
         return decide_len(len(self.contents)) + len(self.contents)
 
-- 
2.43.0


From 922fe506293b8c925d9820b37c83440d85119571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 52/69] fix: a text with too few or too many elements is
 refused for a sequence

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 8d754b6..3da3c8a 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -488,7 +488,7 @@ class Sequence(UT):
     @classmethod
     def from_str(cls, value: str) -> Self:
         values = value.split(" ")
-        return cls(tuple(el.from_str(val) for el, val in zip(cls.__annotations__.values(), values)))
+        return cls(tuple(el.from_str(val) for el, val in zip(cls.__annotations__.values(), values, strict=True)))
 
     def __str__(self):
         return F"{self.__class__.__name__} {Sequence.__name__}[{len(self.__annotations__)}]"
-- 
2.43.0


From 574fe924c464ebc731588dcbaa60b435b92555ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 53/69] fix: alternatives of buffer Data that share a type were
 put with the tag of the first of them

---
 src/DLMS_SPODES/types/cosem_pdu.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 3da3c8a..b84ed4c 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -595,6 +595,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -677,6 +680,24 @@ def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
     return SequenceOf
 
 
+class DontCare(NULL):
+    """dont-care of Data"""
+    @classmethod
+    def from_str(cls, value: str):
+        return cls.default()
+
+class BCD(Integer8):
+    """bcd of Data"""
+
+
+class Enum(Unsigned8):
+    """enum of Data"""
+
+
+class Float32(OctetString4):
+    """float32 of Data"""
+
+
 class Data(Choice):
     ELEMENTS = """define after, because has link to Self"""
 
@@ -692,7 +713,7 @@ Data.ELEMENTS = (
         ChoiceElement("octet-string",          9, OctetString),
         # ChoiceElement(name="visible-string",        10, VisibleString),
         # ChoiceElement(name="utf8-string",           12, UTF8String),
-        ChoiceElement("bcd",                   13, Integer8),
+        ChoiceElement("bcd",                   13, BCD),
         ChoiceElement("integer",               15, Integer8),
         ChoiceElement("long",                  16, Integer16),
         ChoiceElement("unsigned",              17, Unsigned8),
@@ -700,11 +721,11 @@ Data.ELEMENTS = (
         # ChoiceElement("compact-array",         19, ...),
         ChoiceElement("long64",                20, Integer64),
         ChoiceElement("long64-unsigned",       21, Unsigned64),
-        ChoiceElement("enum",                  22, Unsigned8),
-        ChoiceElement("float32",               23, OctetString4),
+        ChoiceElement("enum",                  22, Enum),
+        ChoiceElement("float32",               23, Float32),
         ChoiceElement("float64",               24, OctetString8),
         ChoiceElement("date-time",             25, OctetString12),
         ChoiceElement("date",                  26, OctetString5),
         ChoiceElement("time",                  27, OctetString4),
-        ChoiceElement("dont-care",             255, NULL)
+        ChoiceElement("dont-care",             255, DontCare)
     )
-- 
2.43.0


From 0dcc5f517edc0422caf6e8d3f579da1b9b2dfbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 54/69] fix: the error about an unknown tag failed for choices
 with alternatives by length

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 988af3f..ec8bf92 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -408,7 +408,7 @@ class CHOICE(ABC):
                 case None:                            return tuple(self.ELEMENTS.values())[0].TYPE()
                 case error:                           raise ValueError(F'Unknown value type {error}')
         except KeyError as e:
-            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.ELEMENTS.values()))}")
+            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.__get_elements()))}")
 
     def __get_elements(self) -> list[SequenceElement]:
         """all elements with nested values"""
-- 
2.43.0


From a9837472c8148dc0df344c6abd36edac763addb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 55/69] fix: octet strings of fixed size were encoded without
 length field as alternatives of Data

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index ec8bf92..27d2962 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -351,7 +351,7 @@ class Choice(UT):
             if value is el.type:
                 return el
         for el in cls.ELEMENTS:
-            if issubclass(value, el.type):
+            if issubclass(value, el.type) and issubclass(value, ConstSizeMixin) == issubclass(el.type, ConstSizeMixin):  # a fixed size has no length field
                 return el
         else:
             raise ValueError(F"not find type: {value} in {cls.__name__}")
-- 
2.43.0


From b2adb6f2c68d50a06126193050b76001d00ed555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 56/69] fix: removing the last element of an array without
 naming its index failed

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 929da91..4ec53db 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -292,7 +292,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop(-1 if index is None else index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From 128ef8c441004f24ecfb98e3886ed19c65104da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 57/69] fix: an array refusing a new value lost its elements

---
 src/DLMS_SPODES/types/common_data_types.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4ec53db..3f206af 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1141,16 +1141,21 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        self.clear()
         if hasattr(self, 'cb_preset'):
             self.cb_preset(value)
         new_array = Array(value, type_=self.TYPE)
+        old_values = list(self.values)
         if self.TYPE is None and len(new_array) != 0:
             self.set_type(new_array[0].__class__)
         else:
             """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+            self.clear()
+        try:
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            self.values[:] = old_values
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From b77de9fc0b79d85b5adf4a3ff216dac185247943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 58/69] fix: a structure refusing a new value kept a part of it

---
 src/DLMS_SPODES/types/common_data_types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3f206af..99dbecf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1307,7 +1307,12 @@ class Structure(ComplexDataType):
         self.__dict__["NAME"] = value
 
     def set(self, value: bytes | bytearray | tuple | list | None):
-        for index, el_value in enumerate(self.get_types()(value)):
+        new_value = self.get_types()(value)
+        if len(new_value) != len(self):
+            raise ValueError(F'Struct {self.__class__.__name__} got length:{len(new_value)}, expected length:{len(self)}')
+        for index, el_value in enumerate(new_value):
+            self[index].get_copy(el_value)  # refuse before any element is changed
+        for index, el_value in enumerate(new_value):
             self[index].set(el_value)
 
     @property
-- 
2.43.0


From 1e3255a4efd4b0e1b19c0efcf1c3d72ec7346634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 59/69] fix: Bcd() had no contents, and raw contents of another
 width were accepted

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 99dbecf..c50381e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1707,9 +1707,9 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.contents = bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
-            case bytearray():                                                self.contents = bytes(value)
+            case bytearray() if len(value) == self.contents_length:          self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
             case Bcd():                                                      self.contents = value.contents
-- 
2.43.0


From abd06d7873ea3ad7f0aabd561cce34c38ce9c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 60/69] fix: a boolean accepted unknown texts and raw contents
 of another width

---
 src/DLMS_SPODES/types/common_data_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c50381e..eb378d4 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1419,7 +1419,7 @@ class Boolean(SimpleDataType):
         match value:
             case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
-            case bytearray():                                                self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == 1:                             self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
             case bool():                                                     self.contents = self.from_bool(value)
@@ -1450,7 +1450,8 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
-
+        else:
+            raise ValueError(F"can't create {self.TAG} with value {value}")
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
 
-- 
2.43.0


From 02a112eda3e6e6cdeda5ca5c9c4e608dec947f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 61/69] fix: an enum without defined members accepted raw
 contents of another width

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index eb378d4..157141e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1837,7 +1837,7 @@ class Enum(SimpleDataType, ABC):
                     case self.TAG if len(encoding) >= 2:                  self.contents = encoding[1:2]
                     case self.TAG:                                        raise ValueError(F'Length of contents for {self.__class__.__name__} must be at least 1, but got {len(encoding[1:])}')
                     case _ as wrong_tag:                                  call_wrong_tag_in_value(wrong_tag, self.TAG)
-            case bytearray():                                             self.contents = bytes(value)
+            case bytearray() if len(value) == 1:                          self.contents = bytes(value)
             case None:                                                    self.contents = self.from_none()
             case str():                                                   self.contents = self.from_str(value)
             case int():                                                   self.contents = self.from_int(value)
-- 
2.43.0


From 1281ec6a1287fc28d2a64f1b1539c61fd25c17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 62/69] fix: date-times as octet strings took any type tag for
 an octet string's and failed with IndexError without a length

---
 src/DLMS_SPODES/types/cosem_service_types.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 3713f4e..4497c9f 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -95,8 +95,8 @@ class OctetStringDateTime(cdt.DateTime, tag=9, size=12):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date | datetime.time = b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'):
         match value:  # TODO: common for all OctetDateTimes
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == self.TAG + len(self).to_bytes(1, 'big'): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -109,8 +109,8 @@ class OctetStringDate(cdt.Date, tag=9, size=5):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date = b'\x09\x05\x07\xe4\x01\x01\xff'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == self.TAG + len(self).to_bytes(1, 'big'): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -123,8 +123,8 @@ class OctetStringTime(cdt.Time, tag=9, size=4):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.time = b'\x09\x04\x00\x00\x00\x00'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == self.TAG + len(self).to_bytes(1, 'big'): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
-- 
2.43.0


From 9eb5414c239da50c3a42befa85b7bc175ea7d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 63/69] fix: a segment continues the frame before it whatever
 its poll bit and receive number

---
 src/DLMS_SPODES/hdlc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 54fcd24..0cbd5bb 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -815,7 +815,7 @@ class Frame:
 
     def is_next_send(self, other: Frame) -> bool:
         """ return TRUE if frame is next information frame of current. Other must be previous. """
-        return self.__control == Control.next_send_sequence(other.control)
+        return self.__control & 0b1110 == Control.next_send_sequence(other.control) & 0b1110
 
     @staticmethod
     def join_info(frames: Deque[Frame]) -> bytearray:
-- 
2.43.0


From 17e00c324758cc139ce7b3807d3311d40eb06560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:14 +0000
Subject: [PATCH 64/69] fix: the encoding of a name in object identifier form
 announced its number of arcs as its number of octets

---
 src/DLMS_SPODES/types/common_data_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 157141e..fc419ff 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1410,6 +1410,13 @@ class AXDR(ABC):
         else:
             return super(AXDR, self).contents
 
+    @property
+    def encoding(self) -> bytes:
+        if self.is_xdr:
+            return self.TAG + encode_length(len(self.contents)) + self.contents
+        else:
+            return super(AXDR, self).encoding
+
 
 class Boolean(SimpleDataType):
     """ boolean """
-- 
2.43.0


From 34b745e4133731d9a4721733259778a4d4d33956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:21 +0000
Subject: [PATCH 65/69] fix: object identifiers with too few, too many or
 incomplete arcs were accepted or failed with StopIteration or IndexError

---
 src/DLMS_SPODES/types/common_data_types.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index fc419ff..d8d5259 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1372,7 +1372,7 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = True
                         self.__dict__['TAG'] = b'\x09'
                         length, pdu = get_length_and_pdu(length_and_contents)
-                        if length <= len(pdu):
+                        if 0 < length <= len(pdu):
                             xdr = pdu[:length]
                             values_in: deque[int] = deque(xdr)
                             values_index = iter(range(len(self.ELEMENTS)))
@@ -1392,12 +1392,15 @@ class AXDR(ABC):
                                 else:
                                     tmp += values_in.popleft()
                                     # self._set_value(next(values_index), tmp)
-                                    i = next(values_index)
+                                    if (i := next(values_index, None)) is None:
+                                        raise ValueError(F"{self.__class__.__name__} got more than {len(values)} arcs: {xdr.hex(' ')}")
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
+                            if xdr[-1] >= 0b1000_0000 or next(values_index, None) is not None:
+                                raise ValueError(F"{self.__class__.__name__} got incomplete object identifier: {xdr.hex(' ')}")
                             self.__dict__['values'] = tuple(values)
                         else:
-                            raise ValueError(F"expected {self.TAG} type, got {TAG(encoding[:1])}")
+                            raise ValueError(F"{self.__class__.__name__} got object identifier of {length} octets: {pdu.hex(' ')}")
                     case _:
                         self.__dict__['is_xdr'] = False
                         super(AXDR, self).__init__(value)
-- 
2.43.0


From 091c75df113e6a8aa06527c050d8fcc174ee01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:26 +0000
Subject: [PATCH 66/69] fix: object identifiers of 2.40 and above were read as
 3.0 and above

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d8d5259..4b2d53f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1377,7 +1377,8 @@ class AXDR(ABC):
                             values_in: deque[int] = deque(xdr)
                             values_index = iter(range(len(self.ELEMENTS)))
                             # ger first two values
-                            two_values = divmod(values_in.popleft(), 40)
+                            first = values_in.popleft()
+                            two_values = (min(first // 40, 2), first - 40 * min(first // 40, 2))
                             # self._set_value(next(values_index), two_values[0])
                             # self._set_value(next(values_index), two_values[1])
                             i = next(values_index)
-- 
2.43.0


From f67127b6c5dddbaf9e76a0d13ca42de24906a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 67/69] fix: an association name given as its arcs was left
 without values

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4b2d53f..154c370 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1406,6 +1406,9 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = False
                         super(AXDR, self).__init__(value)
             case None:                                              self.__init__(self.DEFAULT)
+            case _:
+                self.__dict__['is_xdr'] = False
+                super(AXDR, self).__init__(value)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 185ab3ae9e127e96a10d8ae2d9ccc5770bbb8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:38 +0000
Subject: [PATCH 68/69] fix: arcs of 16384 and above in an object identifier
 lost their high bits

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 154c370..fc61969 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1387,7 +1387,7 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
-                                tmp = (tmp & 0b0111_1111) << 7
+                                tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
                                 else:
-- 
2.43.0


From 8cc4b652226490fc9119bad50af8eed3ed8a1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 69/69] fix: leave a structure unchanged when the callback of
 an element refuses

Structure.set changed the elements one after the other, so a callback of a
later element that refused its value left the earlier ones changed.
---
 src/DLMS_SPODES/types/common_data_types.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index fc61969..3e2e75c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1312,8 +1312,21 @@ class Structure(ComplexDataType):
             raise ValueError(F'Struct {self.__class__.__name__} got length:{len(new_value)}, expected length:{len(self)}')
         for index, el_value in enumerate(new_value):
             self[index].get_copy(el_value)  # refuse before any element is changed
-        for index, el_value in enumerate(new_value):
-            self[index].set(el_value)
+        old_value = self.copy()
+        try:
+            for index, el_value in enumerate(new_value):
+                self[index].set(el_value)
+        except Exception:
+            self._restore(old_value)
+            raise
+
+    def _restore(self, value: Self):
+        """ take back the elements of <value> without callbacks """
+        for el, old in zip(self.values, value.values):
+            match el:
+                case Structure(): el._restore(old)
+                case Array():     el.values[:] = old.values
+                case _:           el.__dict__.update(old.__dict__)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0

