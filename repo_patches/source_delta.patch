From 6a3fb0d79514bf255987a5249f30dac5cb5687dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 1/7] fix: reject whitespace in hexadecimal text bitmaps

bytes.fromhex() skips whitespace, so a malformed text bitmap, for example
one made of spaces, was accepted and silently decoded as fewer fields.
---
 iso8583/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..b70e054 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,3 +1,4 @@
+import binascii
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
 
 __all__ = ["decode", "DecodeError"]
@@ -380,7 +381,7 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From ecc25c623c54d0af52f9299e8df15220ebc00ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 2/7] fix: accept only 0-9 digits in text field length

int() accepts signs, surrounding whitespace, underscores and non-ASCII
digits, so malformed lengths such as -1, ' 5' or 1_0 were decoded.
---
 iso8583/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index b70e054..34e9597 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -519,6 +519,10 @@ def _decode_field(
                 ) from None
 
             try:
+                # int() also accepts whitespace, signs, underscores
+                # and non-ASCII digits. None of these is a valid length.
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError("length must consist of 0-9 digits")
                 enc_field_len = int(decoded_length)
             except Exception:
                 raise DecodeError(
-- 
2.43.0


From a3eb3a5872090937bce3174739116bad7e59797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 3/7] fix: raise DecodeError/EncodeError for fields missing
 from specification

A bitmap bit or a document field without an entry in the specification,
such as a tertiary field with any of the bundled specifications, escaped
as a KeyError.
---
 iso8583/decoder.py | 9 +++++++++
 iso8583/encoder.py | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 34e9597..317043d 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -156,6 +156,15 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
+        if field not in spec:
+            raise DecodeError(
+                "Field is not defined in specifications",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            )
         idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
 
     if idx != len(s):
diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..58c6b1b 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -157,6 +157,13 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
+        if field_key not in spec:
+            raise EncodeError(
+                "Field is not defined in specifications",
+                doc_dec,
+                doc_enc,
+                field_key,
+            )
         s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
 
     return s, doc_enc
-- 
2.43.0


From 6ff42c81d8de7102b10f9bcfe55b3e93fa104909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 4/7] fix: raise EncodeError for misspelled numeric field keys

Keys such as '02', or numeric but non-decimal characters, escaped as
KeyError or a plain ValueError, or were silently dropped.
---
 iso8583/encoder.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 58c6b1b..b8a8078 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -94,7 +94,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_type(doc_dec, doc_enc, spec)
 
     try:
-        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
+        numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
     except AttributeError:
         raise EncodeError(
             f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
@@ -103,6 +103,22 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             "p",
         ) from None
 
+    # A field has only one spelling: "2" but not "02", "\u0662" or "\u00b2"
+    invalid_keys = [
+        k
+        for k in numeric_keys
+        if not (k.isascii() and k.isdigit()) or (k[0] == "0" and k != "0")
+    ]
+    if invalid_keys:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {invalid_keys}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
+
+    fields: Set[int] = set([int(k) for k in numeric_keys])
+
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
         raise EncodeError(
-- 
2.43.0


From 5a3ff0af76cc30e8040780ec6893620f141d4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 5/7] fix: reject odd nibble length of text data when decoding

Text data of N odd nibbles was decoded from N + 1 nibbles: the data did
not agree with its length and could exceed the maximum length.
---
 iso8583/decoder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 317043d..425595a 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -599,6 +599,17 @@ def _decode_field(
                 enc_field_len,
             )
     else:
+        # A character takes up whole bytes. Therefore, an odd number of nibbles
+        # cannot describe text data.
+        if len_count == "nibbles" and enc_field_len & 1:
+            raise DecodeError(
+                f"Field data is {byte_field_len * 2} nibbles, expecting {enc_field_len}",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
         doc_dec[field_key] = _decode_text_data(
             s,
             doc_enc[field_key]["data"],
-- 
2.43.0


From a85e3dccd32c3afcd40781d5e82ca5a695b122f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 6/7] fix: remove lower case hexadecimal pad when decoding

A field padded with, for example, 'f' could be encoded but the result
could not be decoded because decoded hexadecimal data is in upper case.
---
 iso8583/decoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 425595a..f1cecc8 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -662,11 +662,12 @@ def _remove_pad_field(
     DecodeError
         An error decoding ISO8583 bytearray.
     """
-    pad: str = field_spec.get("left_pad", "")[:1]
+    # Decoded hex is in upper case
+    pad: str = field_spec.get("left_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][:1] == pad:
         return doc_dec[field_key][1:]
 
-    pad = field_spec.get("right_pad", "")[:1]
+    pad = field_spec.get("right_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
         return doc_dec[field_key][:-1]
 
-- 
2.43.0


From 3a4038cb86692107ce63576dbbe88cc3db46c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 7/7] fix: raise EncodeError for field keys with too many
 digits

int() refuses to convert more than 4300 digits: such a key escaped as a
plain ValueError.
---
 iso8583/encoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index b8a8078..a405694 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -117,7 +117,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             "p",
         )
 
-    fields: Set[int] = set([int(k) for k in numeric_keys])
+    try:
+        fields: Set[int] = set([int(k) for k in numeric_keys])
+    # int() limits the number of digits it converts
+    except ValueError:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {[k for k in numeric_keys if len(k) > 3]}",
+            doc_dec,
+            doc_enc,
+            "p",
+        ) from None
 
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
-- 
2.43.0

