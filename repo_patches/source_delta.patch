From d5c59e1362ce8858d5f08f989720d0617beff66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 01/11] fix: report fields missing from the specification as
 DecodeError/EncodeError

A bitmap bit for a field the specification does not define (for example any
129-192 field with the packaged specifications) made decode leak KeyError on
wire input, and encode leak KeyError for such a dictionary key.
---
 iso8583/decoder.py | 13 ++++++++++++-
 iso8583/encoder.py | 11 ++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..0f33f34 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -155,7 +155,18 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
-        idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
+        try:
+            field_spec = spec[field]
+        except KeyError:
+            raise DecodeError(
+                "Field is not defined in specification",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            ) from None
+        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
 
     if idx != len(s):
         raise DecodeError(
diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..95bca47 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -157,7 +157,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
-        s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
+        try:
+            field_spec = spec[field_key]
+        except KeyError:
+            raise EncodeError(
+                "Field is not defined in specification",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
+        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
 
     return s, doc_enc
 
-- 
2.43.0


From 0f8886b7419f31ff18a75bc1b279fab44fdcbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 02/11] fix: reject whitespace inside a hex bitmap

bytes.fromhex skips whitespace, so a damaged text bitmap such as
'40  000000000000' was accepted as a shorter bitmap with shifted bits.
---
 iso8583/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 0f33f34..e1d83b5 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
+import binascii
 
 __all__ = ["decode", "DecodeError"]
 
@@ -391,7 +392,7 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From 974e0199e98f33a99e5ddee84e16cf89f17108b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 03/11] fix: accept only decimal digits in a text field length

int() also accepts signs, surrounding whitespace, underscores and non-ASCII
digits, so damaged lengths such as '+5', '-0' or ' 5' were accepted.
---
 iso8583/decoder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index e1d83b5..71f8712 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -529,9 +529,10 @@ def _decode_field(
                     field_key,
                 ) from None
 
-            try:
+            # int() is too lenient, e.g. "+5", "-0", " 5", "1_0"
+            if decoded_length.isascii() and decoded_length.isdigit():
                 enc_field_len = int(decoded_length)
-            except Exception:
+            else:
                 raise DecodeError(
                     "Failed to decode field length, non-numeric data",
                     s,
@@ -539,7 +540,7 @@ def _decode_field(
                     doc_enc,
                     idx,
                     field_key,
-                ) from None
+                )
 
         if enc_field_len > field_spec["max_len"]:
             raise DecodeError(
-- 
2.43.0


From 6ea920564066e7e2907df354edaa9a5a5100eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 04/11] fix: reject field keys that are not plain decimal
 numbers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Keys such as '02' or '٢' leaked KeyError, and '²' or a very long run of
digits leaked a plain ValueError, instead of EncodeError.
---
 iso8583/encoder.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 95bca47..2dffd3c 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -1,5 +1,6 @@
 from typing import Any, Dict, Literal, Mapping, MutableMapping, Set, Tuple, Type
 import binascii
+import re
 
 __all__ = ["encode", "EncodeError"]
 
@@ -94,7 +95,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_type(doc_dec, doc_enc, spec)
 
     try:
-        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
+        numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
     except AttributeError:
         raise EncodeError(
             f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
@@ -103,6 +104,18 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             "p",
         ) from None
 
+    # Field keys must be plain decimal numbers: "2" but not "02", "²", etc.
+    invalid_keys = [k for k in numeric_keys if not _FIELD_KEY.fullmatch(k)]
+    if invalid_keys:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {invalid_keys}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
+
+    fields: Set[int] = set([int(k) for k in numeric_keys])
+
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
         raise EncodeError(
@@ -177,6 +190,8 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
 
 _FieldSpecDict = Mapping[str, Any]
 
+_FIELD_KEY = re.compile("0|[1-9][0-9]{0,8}")
+
 
 def _encode_header(
     doc_dec: DecodedDict,
-- 
2.43.0


From 4a15e7dd52d692e160297fa91a0e63aef678a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 05/11] fix: report non-string data of a binary field as
 EncodeError

None, numbers and lists leaked TypeError or UnboundLocalError from the error
handler itself; text fields already reported them.
---
 iso8583/encoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 2dffd3c..938202d 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -579,6 +579,13 @@ def _encode_bindary_field(
             data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
     except Exception:
+        if not isinstance(field_data, str):
+            raise EncodeError(
+                "Failed to encode field, invalid data",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
                 "Failed to encode field, odd-length nibble data, specify pad",
-- 
2.43.0


From bdd7ad77ee3c4bcc03bf9b743e4497312a91a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 06/11] fix: recognise a lowercase hex pad when decoding

encode accepts left_pad or right_pad 'f', but decode compared it with
uppercase hex and rejected the message encode had produced.
---
 iso8583/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 71f8712..7c094f6 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -650,11 +650,11 @@ def _remove_pad_field(
     DecodeError
         An error decoding ISO8583 bytearray.
     """
-    pad: str = field_spec.get("left_pad", "")[:1]
+    pad: str = field_spec.get("left_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][:1] == pad:
         return doc_dec[field_key][1:]
 
-    pad = field_spec.get("right_pad", "")[:1]
+    pad = field_spec.get("right_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
         return doc_dec[field_key][:-1]
 
-- 
2.43.0


From 5cefddfbba188cec6db7e257c02033b29d0870f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 07/11] fix: left_pad takes precedence over right_pad when
 decoding

With both pads configured encode pads on the left only, as documented, but
decode accepted a damaged left pad by removing the right nibble instead.
---
 iso8583/decoder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 7c094f6..efc534d 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -651,12 +651,14 @@ def _remove_pad_field(
         An error decoding ISO8583 bytearray.
     """
     pad: str = field_spec.get("left_pad", "")[:1].upper()
-    if len(pad) > 0 and doc_dec[field_key][:1] == pad:
-        return doc_dec[field_key][1:]
-
-    pad = field_spec.get("right_pad", "")[:1].upper()
-    if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
-        return doc_dec[field_key][:-1]
+    if len(pad) > 0:
+        # left_pad takes precedence when both are specified
+        if doc_dec[field_key][:1] == pad:
+            return doc_dec[field_key][1:]
+    else:
+        pad = field_spec.get("right_pad", "")[:1].upper()
+        if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
+            return doc_dec[field_key][:-1]
 
     raise DecodeError(
         f"Field data is {len(doc_dec[field_key])} nibbles, expecting {enc_field_len}",
-- 
2.43.0


From 3e8e5ff36f2c8b73fb936c02bc48f218538b70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 08/11] fix: reject text fields with an odd number of nibbles

decode rounded the count up, accepting data longer than announced (even
longer than max_len), which encode would then refuse or announce differently.
---
 iso8583/decoder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index efc534d..aebf1ac 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -598,6 +598,17 @@ def _decode_field(
                 enc_field_len,
             )
     else:
+        # Text cannot contain half a byte
+        if len_count == "nibbles" and enc_field_len & 1:
+            raise DecodeError(
+                f"Field data is {byte_field_len * 2} nibbles, expecting {enc_field_len}",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
+
         doc_dec[field_key] = _decode_text_data(
             s,
             doc_enc[field_key]["data"],
-- 
2.43.0


From 66f68913ac539e4b9312a899354eb95b65a4e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 09/11] fix: an exception while padding a binary field is not
 lost

A timeout or memory exhaustion striking before data_to_encode was assigned
reached the caller as UnboundLocalError raised by the error handler.
---
 iso8583/encoder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 938202d..1574867 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -571,12 +571,11 @@ def _encode_bindary_field(
     EncodeError
         An error encoding ISO8583 bytearray.
     """
+    data_to_encode = field_data
     try:
         # Odd length nibbles need to be padded because it's not possible to send half a byte
         if len_count == "nibbles" and len(field_data) & 1:
             data_to_encode = _add_pad_field(field_data, field_spec)
-        else:
-            data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
     except Exception:
         if not isinstance(field_data, str):
-- 
2.43.0


From 8c455b90b3bac25c218bb5b7a3992f9da7945b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 10/11] fix: report a missing secondary bitmap definition as
 DecodeError/EncodeError

A specification without fields above 64 may leave "1" out; a message whose
primary bitmap announces a secondary one then made decode leak KeyError on
wire input, and encode leak KeyError for a field above 64.
---
 iso8583/decoder.py | 13 ++++++++++++-
 iso8583/encoder.py | 11 ++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index aebf1ac..e4e76f4 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -127,13 +127,24 @@ def decode(
 
     if 1 in fields:
         field = "1"
+        try:
+            field_spec = spec[field]
+        except KeyError:
+            raise DecodeError(
+                "Field is not defined in specification",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            ) from None
         idx = _decode_bitmap(
             s,
             doc_dec,
             doc_enc,
             idx,
             field,
-            spec[field],
+            field_spec,
             64,
             False,
             fields,
diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 1574867..cb0fe1c 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -146,11 +146,20 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     )
 
     if 1 in fields:
+        try:
+            field_spec = spec["1"]
+        except KeyError:
+            raise EncodeError(
+                "Field is not defined in specification",
+                doc_dec,
+                doc_enc,
+                "1",
+            ) from None
         s += _encode_bitmap(
             doc_dec,
             doc_enc,
             "1",
-            spec["1"],
+            field_spec,
             64,
             False,
             secondary_fields,
-- 
2.43.0


From 8d6205db15b641e860f807d0d5b286816b4a43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 11/11] fix: report keys and values that only look like text as
 EncodeError

---
 iso8583/encoder.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index cb0fe1c..3aac277 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -94,15 +94,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_header(doc_dec, doc_enc, spec)
     s += _encode_type(doc_dec, doc_enc, spec)
 
-    try:
-        numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
-    except AttributeError:
+    non_text_keys = [k for k in doc_dec.keys() if not isinstance(k, str)]
+    if non_text_keys:
         raise EncodeError(
-            f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
+            f"Dictionary contains invalid fields {non_text_keys}",
             doc_dec,
             doc_enc,
             "p",
-        ) from None
+        )
+
+    numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
 
     # Field keys must be plain decimal numbers: "2" but not "02", "²", etc.
     invalid_keys = [k for k in numeric_keys if not _FIELD_KEY.fullmatch(k)]
@@ -691,6 +692,14 @@ def _encode_text_field(
     EncodeError
         An error encoding ISO8583 bytearray.
     """
+    if not isinstance(field_data, str):
+        raise EncodeError(
+            "Failed to encode field, invalid data",
+            doc_dec,
+            doc_enc,
+            field_key,
+        )
+
     try:
         encoded_data = field_data.encode(field_spec["data_enc"])
     except LookupError:
-- 
2.43.0

