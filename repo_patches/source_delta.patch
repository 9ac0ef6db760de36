From 3d2d12686ef250e8db0cfd52941c6c96a4b71bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:38 +0000
Subject: [PATCH 01/13] fix: refuse text that has no UTF-8 encoding with an
 EncodingError

---
 eth_abi/encoding.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..4d3004c 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -544,6 +544,15 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError:
+            cls.invalidate_value(
+                value,
+                exc=IllegalValue,
+                msg="text cannot be encoded as UTF-8",
+            )
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From 2df30af854b003137cab120848787aabadd0f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 02/13] fix: report oversized bytes/string lengths as
 InsufficientDataBytes

---
 eth_abi/decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..1fff6eb 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -5,6 +5,7 @@ from collections.abc import (
 )
 import decimal
 import io
+import sys
 from typing import (
     Any,
 )
@@ -596,7 +597,8 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        # A stream cannot hold more than `sys.maxsize` bytes and cannot be asked for more
+        data = stream.read(min(padded_length, sys.maxsize))
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 66f12187afcaa8dd9c884dc71ebfb578027154b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 03/13] fix: never return fewer bytes than declared in
 non-strict decoding

---
 eth_abi/decoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 1fff6eb..83fa679 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -612,6 +612,11 @@ class ByteStringDecoder(SingleDecoder):
                     f"Padding bytes were not empty: {repr(padding_bytes)}"
                 )
 
+        elif len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
+
         return data[:data_length]
 
     def validate_padding_bytes(self, value, padding_bytes):
-- 
2.43.0


From e8c7154f8442e77a8d29b41101adc2d8dc8f94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 04/13] fix: reject tuple pointers into a head that holds
 nested static components

---
 eth_abi/decoding.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 83fa679..1a04dff 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -194,31 +194,29 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
         total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
+                pointer_location = stream.tell()
                 offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                pointers.append((pointer_location, current_location + offset))
             else:
-                # the next 32 bytes are not a pointer, so progress the stream per
-                # the decoder
+                # what follows is not a pointer, so progress the stream per the decoder
                 decoder(stream)
+        # the head may be longer than one word per decoder (e.g. nested static tuples
+        # and arrays), so its end is only known once it has been read
+        end_of_offsets = stream.tell()
+        for pointer_location, indicated_idx in pointers:
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    "Invalid pointer in tuple at location "
+                    f"{pointer_location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From e6e0ec05dcc758b3f79cfb4e8e1c3170cc2faf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 05/13] fix: refuse the bool type with a suffix

---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..64e6d96 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of boolean type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From 8e7f2b116459195e9357dee54d808c3bce821168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 06/13] fix: support the byte alias wherever the other aliases
 are supported

---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..a463cbe 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -555,6 +555,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte", with_sub=False),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -621,6 +627,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte", with_sub=False),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0


From 8efd6a75d5b3c8e48575df11d3dc600d2a8b7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 07/13] fix: refuse integers too large to print with an
 EncodingError

---
 eth_abi/utils/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..3cb8666 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,11 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except ValueError:
+        # e.g. integers with more digits than `sys.get_int_max_str_digits()`
+        rep = object.__repr__(value)
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From 04e7148368d775d94abcd1b69bba89759c3d53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 08/13] fix: refuse numbers that are not exact decimals for
 fixed-point types

---
 eth_abi/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 4d3004c..5832157 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -334,7 +334,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return is_number(value) and isinstance(value, (int, decimal.Decimal))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From 527a94bca41974c525458d4dceec09c8d39577cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 09/13] fix: drop the label of a registration removed by an
 equal predicate

---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index a463cbe..f576252 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From 22d4bd08e3b8eb3c940decfbd0c97581d9edc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 10/13] fix: keep the strict flag of one decode call out of
 registered decoder instances

---
 eth_abi/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index f576252..b62ebe7 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -477,7 +477,9 @@ class ABIRegistry(Copyable, BaseRegistry):
         if hasattr(decoder, "is_dynamic") and decoder.is_dynamic:
             # Set a transient flag each time a call is made to ``get_decoder()``.
             # Only dynamic decoders should be allowed these looser constraints. All
-            # other decoders should keep the default value of ``True``.
+            # other decoders should keep the default value of ``True``.  The flag is
+            # set on a copy since a decoder instance may itself be registered.
+            decoder = copy.copy(decoder)
             decoder.strict = strict
 
         return decoder
-- 
2.43.0


From 3d9583302bcbf4f90b59cf9ae8210461efac0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 11/13] fix: support plain callables as coders of array items

---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 1a04dff..ae3e3a1 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -271,7 +271,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -328,7 +328,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 5832157..12a1dc8 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -596,7 +596,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -672,7 +675,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From 8336aa5cdc78eeef9f14cc29187dc2645d8990d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:51 +0000
Subject: [PATCH 12/13] fix: refuse very small fixed values instead of
 underflowing them to zero

---
 eth_abi/utils/numeric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index b44e4dc..0c24046 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -5,7 +5,13 @@ import decimal
 
 ABI_DECIMAL_PREC = 999
 
-abi_decimal_context = decimal.Context(prec=ABI_DECIMAL_PREC)
+# The exponent range must not be a limit: otherwise the remainder of a very small value
+# underflows to zero and the value is taken to have no excess fractional digits
+abi_decimal_context = decimal.Context(
+    prec=ABI_DECIMAL_PREC,
+    Emin=decimal.MIN_EMIN,
+    Emax=decimal.MAX_EMAX,
+)
 
 ZERO = decimal.Decimal(0)
 TEN = decimal.Decimal(10)
-- 
2.43.0


From b560872ad8d5f253b9890df07971f92424ba6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:48 +0000
Subject: [PATCH 13/13] fix: leave no encoder behind when register refuses the
 decoder

---
 eth_abi/registry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index b62ebe7..52e561f 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -442,7 +442,12 @@ class ABIRegistry(Copyable, BaseRegistry):
             variants.
         """
         self.register_encoder(lookup, encoder, label=label)
-        self.register_decoder(lookup, decoder, label=label)
+        try:
+            self.register_decoder(lookup, decoder, label=label)
+        except Exception:
+            # a refused registration has no effect
+            self.unregister_encoder(lookup)
+            raise
 
     def unregister(self, label: str | None) -> None:
         """
-- 
2.43.0

