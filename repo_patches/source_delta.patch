From bdc8b022a7b75ed27ef10a067501dc8a66ae9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:50 +0000
Subject: [PATCH 01/24] fix: validate complete percent-escapes in serial
 components

Valid escapes with a hexadecimal letter such as %2F or %3C were rejected or
crashed at the start of a serial, while truncated escapes and escapes of
characters outside the permitted set were accepted.
---
 epcpy/utils/common.py | 2 +-
 epcpy/utils/regex.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..d5f53e6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -506,7 +506,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..8b415cc 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9]\d*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "\d+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
-- 
2.43.0


From 56f3035ea1486dcf4e6acfc6d084c886b28f6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:52 +0000
Subject: [PATCH 02/24] fix: decode every accepted percent-escape in keys and
 element strings

Lower case escapes such as %2f and escapes of unreserved characters are
accepted in URIs and decoded when encoding a tag, but were left escaped in
GS1 keys, element strings and length checks.
---
 epcpy/utils/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d5f53e6..85466b8 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -37,15 +37,7 @@ def replace_uri_escapes(uri: str) -> str:
     Returns:
         str: Escaped URI string
     """
-    return (
-        uri.replace("%22", '"')
-        .replace("%26", "&")
-        .replace("%2F", "/")
-        .replace("%3C", "<")
-        .replace("%3E", ">")
-        .replace("%3F", "?")
-        .replace("%25", "%")
-    )
+    return re.sub("%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), uri)
 
 
 def revert_uri_escapes(uri: str) -> str:
-- 
2.43.0


From d7b0ebc1bba3ca5f6fa16c0a25f7d7d87d9eebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:10 +0000
Subject: [PATCH 03/24] fix: keep GIAI asset references that contain a colon

Everything after the first colon was dropped from the key and tags.
---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From 58fe7b7cdd22ec6dee91b6e74eeb4ebf47d865c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:13 +0000
Subject: [PATCH 04/24] fix: count unescaped characters in GDTI, GRAI, GIAI and
 CPI length limits

Identities with percent-escapes were rejected although their components are
within the permitted length.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..baab3e0 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f927ea9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..a40f18c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..3622695 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From c03f14503e157f0e6d9ab7a8609dfa65df2581e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:16 +0000
Subject: [PATCH 05/24] fix: encode ITIP piece and total numbers of 99

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 85466b8..be82ab3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -407,7 +407,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) > (pow(10, int(bit_count * log(2) / log(10))) - 1):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From b19cbc03f5c3367afbe453cc4d05f1908d41aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:20 +0000
Subject: [PATCH 06/24] fix: require two-digit piece and total numbers in ITIP
 URIs

Any split of 17 digits was accepted, giving element strings of another EPC.
---
 epcpy/epc_schemes/itip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..034a5f7 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -148,7 +148,9 @@ class ITIP(GS1Element, TagEncodable):
         verify_gs3a3_component(self._serial)
 
         if (
-            len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            len(f"{self._company_pref}{self._item_ref}") != 13
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From 1c6a88be3994b76636404986b95b846287a22584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:23 +0000
Subject: [PATCH 07/24] fix: check the company prefix length of UPUI URIs

A 13 digit company prefix was accepted and made gs1_element_string crash.
---
 epcpy/epc_schemes/upui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..de71fd7 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,7 +50,9 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
-        if len(f"{self._company_pref}{self._item_ref}") != 13:
+        if len(f"{self._company_pref}{self._item_ref}") != 13 or not (
+            6 <= len(self._company_pref) <= 12
+        ):
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
             )
-- 
2.43.0


From 820d7b3f78073ec1b3274fe77a495e4f7678df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:06 +0000
Subject: [PATCH 08/24] fix: refuse to encode serials a binary coding scheme
 cannot hold

tag_uri() checked the serial against the coding scheme, but binary(), hex()
and base64() did not: leading zeros were silently lost, too large serials
gave overlong tags and alphanumeric serials raised ValueError. Share the
check between tag_uri() and binary().
---
 epcpy/epc_schemes/cpi.py   | 32 ++++++++++++++++++++++--------
 epcpy/epc_schemes/gdti.py  | 40 ++++++++++++++++++++++++++------------
 epcpy/epc_schemes/giai.py  | 36 ++++++++++++++++++++++++----------
 epcpy/epc_schemes/grai.py  | 36 ++++++++++++++++++++++++----------
 epcpy/epc_schemes/itip.py  | 36 ++++++++++++++++++++++++----------
 epcpy/epc_schemes/sgln.py  | 32 ++++++++++++++++++++++--------
 epcpy/epc_schemes/sgtin.py | 32 ++++++++++++++++++++++--------
 7 files changed, 178 insertions(+), 66 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index baab3e0..40d6dd6 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -257,20 +257,14 @@ class CPI(GS1Element, TagEncodable):
             f"urn:epc:id:cpi:{digits[:company_prefix_length]}.{chars}.{serial_digits}"
         )
 
-    def tag_uri(
-        self, binary_coding_scheme: BinaryCodingScheme, filter_value: CPIFilterValue
-    ) -> str:
-        """Return the tag URI belonging to this CPI with the provided binary coding scheme and filter value.
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this CPI.
 
         Args:
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
-            filter_value (CPIFilterValue): Filter value
 
         Raises:
             ConvertException: Serial does not match requirements of provided coding scheme
-
-        Returns:
-            str: Tag URI
         """
         if (
             binary_coding_scheme == CPI.BinaryCodingScheme.CPI_VAR
@@ -286,6 +280,23 @@ class CPI(GS1Element, TagEncodable):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
+    def tag_uri(
+        self, binary_coding_scheme: BinaryCodingScheme, filter_value: CPIFilterValue
+    ) -> str:
+        """Return the tag URI belonging to this CPI with the provided binary coding scheme and filter value.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+            filter_value (CPIFilterValue): Filter value
+
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
+        Returns:
+            str: Tag URI
+        """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         self._tag_uri = f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
 
         return self._tag_uri
@@ -301,9 +312,14 @@ class CPI(GS1Element, TagEncodable):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (CPIFilterValue): Filter value
 
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f927ea9..47fd489 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -199,6 +199,28 @@ class GDTI(TagEncodable, GS1Keyed):
             f"urn:epc:id:gdti:{digits[:company_prefix_length]}.{digits[company_prefix_length:-1]}.{chars}"
         )
 
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this GDTI.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+        """
+        if (
+            binary_coding_scheme == GDTI.BinaryCodingScheme.GDTI_174
+            and len(replace_uri_escapes(self._serial)) > 17
+        ) or (
+            binary_coding_scheme == GDTI.BinaryCodingScheme.GDTI_96
+            and (
+                not self._serial.isnumeric()
+                or int(self._serial) >= pow(2, 41)
+                or (len(self._serial) > 1 and self._serial[0] == "0")
+            )
+        ):
+            raise ConvertException(message=f"Invalid serial value {self._serial}")
+
     def tag_uri(
         self,
         binary_coding_scheme: GDTI.BinaryCodingScheme,
@@ -219,18 +241,7 @@ class GDTI(TagEncodable, GS1Keyed):
         scheme = binary_coding_scheme.value
         filter_val = filter_value.value
 
-        if (
-            scheme == GDTI.BinaryCodingScheme.GDTI_174.value
-            and len(replace_uri_escapes(self._serial)) > 17
-        ) or (
-            scheme == GDTI.BinaryCodingScheme.GDTI_96.value
-            and (
-                not self._serial.isnumeric()
-                or int(self._serial) >= pow(2, 41)
-                or (len(self._serial) > 1 and self._serial[0] == "0")
-            )
-        ):
-            raise ConvertException(message=f"Invalid serial value {self._serial}")
+        self._verify_coding_scheme(binary_coding_scheme)
 
         return f"{self.TAG_URI_PREFIX}{scheme}:{filter_val}.{self._company_pref}.{self._doc_type}.{self._serial}"
 
@@ -245,9 +256,14 @@ class GDTI(TagEncodable, GS1Keyed):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (GDTIFilterValue): Filter value
 
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index a40f18c..bab12e6 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -256,23 +256,15 @@ class GIAI(TagEncodable, GS1Keyed):
 
         return cls(f"urn:epc:id:giai:{digits}.{chars}")
 
-    def tag_uri(
-        self, binary_coding_scheme: BinaryCodingScheme, filter_value: GIAIFilterValue
-    ) -> str:
-        """Return the tag URI belonging to this GIAI with the provided binary coding scheme and filter value.
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this GIAI.
 
         Args:
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
-            filter_value (GIAIFilterValue): Filter value
 
         Raises:
             ConvertException: Asset reference value does not match requirements of provided coding scheme
-
-        Returns:
-            str: Tag URI
         """
-        filter_val = filter_value.value
-
         if (
             binary_coding_scheme == GIAI.BinaryCodingScheme.GIAI_202
             and len(replace_uri_escapes(self._asset_ref))
@@ -292,6 +284,25 @@ class GIAI(TagEncodable, GS1Keyed):
                 message=f"Invalid asset reference value {self._asset_ref}"
             )
 
+    def tag_uri(
+        self, binary_coding_scheme: BinaryCodingScheme, filter_value: GIAIFilterValue
+    ) -> str:
+        """Return the tag URI belonging to this GIAI with the provided binary coding scheme and filter value.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+            filter_value (GIAIFilterValue): Filter value
+
+        Raises:
+            ConvertException: Asset reference value does not match requirements of provided coding scheme
+
+        Returns:
+            str: Tag URI
+        """
+        filter_val = filter_value.value
+
+        self._verify_coding_scheme(binary_coding_scheme)
+
         return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_val}.{self._company_pref}.{self._asset_ref}"
 
     def binary(
@@ -305,9 +316,14 @@ class GIAI(TagEncodable, GS1Keyed):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (GIAIFilterValue): Filter value
 
+        Raises:
+            ConvertException: Asset reference value does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 3622695..d80e9c4 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -197,23 +197,15 @@ class GRAI(TagEncodable, GS1Keyed):
             f"urn:epc:id:grai:{digits[:company_prefix_length]}.{digits[company_prefix_length:-1]}.{chars}"
         )
 
-    def tag_uri(
-        self, binary_coding_scheme: BinaryCodingScheme, filter_value: GRAIFilterValue
-    ) -> str:
-        """Return the tag URI belonging to this GRAI with the provided binary coding scheme and filter value.
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this GRAI.
 
         Args:
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
-            filter_value (GRAIFilterValue): Filter value
 
         Raises:
             ConvertException: Serial does not match requirements of provided coding scheme
-
-        Returns:
-            str: Tag URI
         """
-        filter_val = filter_value.value
-
         if (
             binary_coding_scheme == GRAI.BinaryCodingScheme.GRAI_170
             and len(replace_uri_escapes(self._serial)) > 20
@@ -227,6 +219,25 @@ class GRAI(TagEncodable, GS1Keyed):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
+    def tag_uri(
+        self, binary_coding_scheme: BinaryCodingScheme, filter_value: GRAIFilterValue
+    ) -> str:
+        """Return the tag URI belonging to this GRAI with the provided binary coding scheme and filter value.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+            filter_value (GRAIFilterValue): Filter value
+
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
+        Returns:
+            str: Tag URI
+        """
+        filter_val = filter_value.value
+
+        self._verify_coding_scheme(binary_coding_scheme)
+
         return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_val}.{self._company_pref}.{self._asset_type}.{self._serial}"
 
     def binary(
@@ -240,9 +251,14 @@ class GRAI(TagEncodable, GS1Keyed):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (GRAIFilterValue): Filter value
 
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 034a5f7..ad90590 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -200,23 +200,15 @@ class ITIP(GS1Element, TagEncodable):
             f"urn:epc:id:itip:{digits[1:1+company_prefix_length]}.{digits[0]}{digits[1+company_prefix_length:-5]}.{digits[-4:-2]}.{digits[-2:]}.{chars}"
         )
 
-    def tag_uri(
-        self, binary_coding_scheme: BinaryCodingScheme, filter_value: ITIPFilterValue
-    ) -> str:
-        """Return the tag URI belonging to this ITIP with the provided binary coding scheme and filter value.
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this ITIP.
 
         Args:
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
-            filter_value (ITIPFilterValue): Filter value
 
         Raises:
             ConvertException: Serial does not match requirements of provided coding scheme
-
-        Returns:
-            str: Tag URI
         """
-        filter_val = filter_value.value
-
         if (
             binary_coding_scheme == ITIP.BinaryCodingScheme.ITIP_212
             and len(replace_uri_escapes(self._serial)) > 20
@@ -230,6 +222,25 @@ class ITIP(GS1Element, TagEncodable):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
+    def tag_uri(
+        self, binary_coding_scheme: BinaryCodingScheme, filter_value: ITIPFilterValue
+    ) -> str:
+        """Return the tag URI belonging to this ITIP with the provided binary coding scheme and filter value.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+            filter_value (ITIPFilterValue): Filter value
+
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
+        Returns:
+            str: Tag URI
+        """
+        filter_val = filter_value.value
+
+        self._verify_coding_scheme(binary_coding_scheme)
+
         return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_val}.{self._company_pref}.{self._item_ref}.{self._piece}.{self._total}.{self._serial}"
 
     def binary(
@@ -243,9 +254,14 @@ class ITIP(GS1Element, TagEncodable):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (ITIPFilterValue): Filter value
 
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..2090d14 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -199,20 +199,14 @@ class SGLN(TagEncodable, GS1Keyed):
             f"urn:epc:id:sgln:{digits[:company_prefix_length]}.{digits[company_prefix_length:-1]}.{chars}"
         )
 
-    def tag_uri(
-        self, binary_coding_scheme: BinaryCodingScheme, filter_value: SGLNFilterValue
-    ) -> str:
-        """Return the tag URI belonging to this SGLN with the provided binary coding scheme and filter value.
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this SGLN.
 
         Args:
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
-            filter_value (SGLNFilterValue): Filter value
 
         Raises:
             ConvertException: Serial does not match requirements of provided coding scheme
-
-        Returns:
-            str: Tag URI
         """
         if (
             binary_coding_scheme == SGLN.BinaryCodingScheme.SGLN_195
@@ -227,6 +221,23 @@ class SGLN(TagEncodable, GS1Keyed):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
+    def tag_uri(
+        self, binary_coding_scheme: BinaryCodingScheme, filter_value: SGLNFilterValue
+    ) -> str:
+        """Return the tag URI belonging to this SGLN with the provided binary coding scheme and filter value.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+            filter_value (SGLNFilterValue): Filter value
+
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
+        Returns:
+            str: Tag URI
+        """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._location_ref}.{self._serial}"
 
     def binary(
@@ -240,9 +251,14 @@ class SGLN(TagEncodable, GS1Keyed):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (SGLNFilterValue): Filter value
 
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..2757886 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -262,6 +262,24 @@ class SGTIN(TagEncodable, GS1Keyed):
             f"urn:epc:id:sgtin:{digits[1:company_prefix_length+1]}.{digits[0]}{digits[1+company_prefix_length:-1]}.{chars}"
         )
 
+    def _verify_coding_scheme(self, binary_coding_scheme: BinaryCodingScheme) -> None:
+        """Verify that the provided binary coding scheme can represent this SGTIN.
+
+        Args:
+            binary_coding_scheme (BinaryCodingScheme): Coding scheme
+
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+        """
+        if binary_coding_scheme == SGTIN.BinaryCodingScheme.SGTIN_96 and (
+            not self._serial.isnumeric()
+            or int(self._serial) >= pow(2, 38)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
+        ):
+            raise ConvertException(
+                message=f"Invalid serial value {self._serial} for SGTIN_96 coding scheme"
+            )
+
     def tag_uri(
         self,
         binary_coding_scheme: BinaryCodingScheme,
@@ -279,14 +297,7 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: Tag URI
         """
-        if binary_coding_scheme == SGTIN.BinaryCodingScheme.SGTIN_96 and (
-            not self._serial.isnumeric()
-            or int(self._serial) >= pow(2, 38)
-            or (len(self._serial) > 1 and self._serial[0] == "0")
-        ):
-            raise ConvertException(
-                message=f"Invalid serial value {self._serial} for SGTIN_96 coding scheme"
-            )
+        self._verify_coding_scheme(binary_coding_scheme)
 
         scheme = binary_coding_scheme.value
         filter_val = filter_value.value
@@ -304,9 +315,14 @@ class SGTIN(TagEncodable, GS1Keyed):
             binary_coding_scheme (BinaryCodingScheme): Coding scheme
             filter_value (SGTINFilterValue): Filter value
 
+        Raises:
+            ConvertException: Serial does not match requirements of provided coding scheme
+
         Returns:
             str: binary representation
         """
+        self._verify_coding_scheme(binary_coding_scheme)
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From e0ead47ebc8e6df56d40d67f765c87b58541de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:28 +0000
Subject: [PATCH 09/24] fix: reject tag URIs whose coding scheme cannot hold
 the identity

Also match the whole tag URI: trailing text after a GID tag URI was ignored.
---
 epcpy/epc_schemes/base_scheme.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..da4accd 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -183,7 +183,7 @@ class TagEncodable(EPCScheme):
         Returns:
             TagEncodable: Instance of TagEncodable class
         """
-        if not TagEncodable.TAG_URI_REGEX.match(epc_tag_uri):
+        if not TagEncodable.TAG_URI_REGEX.fullmatch(epc_tag_uri):
             raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
 
         epc_scheme = epc_tag_uri.split(":")[3]
@@ -193,7 +193,20 @@ class TagEncodable(EPCScheme):
         else:
             value = epc_tag_uri.split(":")[4]
 
-        return cls(f"urn:epc:id:{epc_scheme.split('-')[0]}:{value}")
+        scheme = cls(f"urn:epc:id:{epc_scheme.split('-')[0]}:{value}")
+        scheme._verify_coding_scheme(cls.BinaryCodingScheme(epc_scheme))
+
+        return scheme
+
+    def _verify_coding_scheme(self, binary_coding_scheme: Enum) -> None:
+        """Verify that the provided binary coding scheme can represent this instance.
+
+        Args:
+            binary_coding_scheme (Enum): Coding scheme
+
+        Raises:
+            ConvertException: Instance cannot be represented in the provided coding scheme
+        """
 
     @classmethod
     def header_to_schemes(cls: Type[T_TagEncodable]) -> Dict[str, Enum]:
-- 
2.43.0


From 152a71ae95f94a7d9ce4647feb453f8ba7c1dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:30 +0000
Subject: [PATCH 10/24] fix: reject tag URIs with a filter value outside the
 scheme's range

---
 epcpy/utils/regex.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 8b415cc..0c4059e 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -116,20 +116,23 @@ IDPAT_BODY = (
 IDPAT_URI = f"urn:epc:idpat:{IDPAT_BODY}"
 
 # EPC Tag URIs
-SGTIN_TAG_URI_BODY = f"(sgtin-96|sgtin-198):{NUMERIC_COMPONENT}\.{SGTIN_URI_BODY}"
-SSCC_TAG_URI_BODY = f"sscc-96:{NUMERIC_COMPONENT}\.{SSCC_URI_BODY}"
-SGLN_TAG_URI_BODY = f"(sgln-96|sgln-195):{NUMERIC_COMPONENT}\.{SGLN_URI_BODY}"
-GRAI_TAG_URI_BODY = f"(grai-96|grai-170):{NUMERIC_COMPONENT}\.{GRAI_URI_BODY}"
-GIAI_TAG_URI_BODY = f"(giai-96|giai-202):{NUMERIC_COMPONENT}\.{GIAI_URI_BODY}"
-GSRN_TAG_URI_BODY = f"gsrn-96:{NUMERIC_COMPONENT}\.{GSRN_URI_BODY}"
-GSRNP_TAG_URI_BODY = f"gsrnp-96:{NUMERIC_COMPONENT}\.{GSRNP_URI_BODY}"
-GDTI_TAG_URI_BODY = f"(gdti-96|gdti-174):{NUMERIC_COMPONENT}\.{GDTI_URI_BODY}"
-CPI_TAG_URI_BODY = f"(cpi-96|cpi-var):{NUMERIC_COMPONENT}\.{CPI_URI_BODY}"
-SGCN_TAG_URI_BODY = f"sgcn-96:{NUMERIC_COMPONENT}\.{SGCN_URI_BODY}"
-ITIP_TAG_URI_BODY = f"(itip-110|itip-212):{NUMERIC_COMPONENT}\.{ITIP_URI_BODY}"
+FILTER_VALUE = "[0-7]"
+USDOD_FILTER_VALUE = "([0-9]|1[0-5])"
+ADI_FILTER_VALUE = "([0-9]|[1-5][0-9]|6[0-3])"
+SGTIN_TAG_URI_BODY = f"(sgtin-96|sgtin-198):{FILTER_VALUE}\.{SGTIN_URI_BODY}"
+SSCC_TAG_URI_BODY = f"sscc-96:{FILTER_VALUE}\.{SSCC_URI_BODY}"
+SGLN_TAG_URI_BODY = f"(sgln-96|sgln-195):{FILTER_VALUE}\.{SGLN_URI_BODY}"
+GRAI_TAG_URI_BODY = f"(grai-96|grai-170):{FILTER_VALUE}\.{GRAI_URI_BODY}"
+GIAI_TAG_URI_BODY = f"(giai-96|giai-202):{FILTER_VALUE}\.{GIAI_URI_BODY}"
+GSRN_TAG_URI_BODY = f"gsrn-96:{FILTER_VALUE}\.{GSRN_URI_BODY}"
+GSRNP_TAG_URI_BODY = f"gsrnp-96:{FILTER_VALUE}\.{GSRNP_URI_BODY}"
+GDTI_TAG_URI_BODY = f"(gdti-96|gdti-174):{FILTER_VALUE}\.{GDTI_URI_BODY}"
+CPI_TAG_URI_BODY = f"(cpi-96|cpi-var):{FILTER_VALUE}\.{CPI_URI_BODY}"
+SGCN_TAG_URI_BODY = f"sgcn-96:{FILTER_VALUE}\.{SGCN_URI_BODY}"
+ITIP_TAG_URI_BODY = f"(itip-110|itip-212):{FILTER_VALUE}\.{ITIP_URI_BODY}"
 GID_TAG_URI_BODY = f"gid-96:{GID_URI_BODY}"
-USDOD_TAG_URI_BODY = f"usdod-96:{NUMERIC_COMPONENT}\.{USDOD_URI_BODY}"
-ADI_TAG_URI_BODY = f"adi-var:{NUMERIC_COMPONENT}\.{ADI_URI_BODY}"
+USDOD_TAG_URI_BODY = f"usdod-96:{USDOD_FILTER_VALUE}\.{USDOD_URI_BODY}"
+ADI_TAG_URI_BODY = f"adi-var:{ADI_FILTER_VALUE}\.{ADI_URI_BODY}"
 
 TAG_URI_BODY = (
     f"({SGTIN_TAG_URI_BODY}|{SSCC_TAG_URI_BODY}|{SGLN_TAG_URI_BODY}|{GRAI_TAG_URI_BODY}"
-- 
2.43.0


From c4c3df10710ca13d1520989264ee60de8846f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:32 +0000
Subject: [PATCH 11/24] fix: accept only ASCII digits in numeric components

\d also matches other Unicode digits, which were copied into keys and tags.
---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 0c4059e..4e9f56e 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From 6811433a0d508d5616b34b2dd2158c15c9848b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:35 +0000
Subject: [PATCH 12/24] fix: parse element strings whose serial contains
 parentheses

A serial such as a(bc)d was taken for another application identifier and
made SGTIN, LGTIN and SGLN raise ValueError.
---
 epcpy/epc_schemes/lgtin.py | 2 +-
 epcpy/epc_schemes/sgln.py  | 2 +-
 epcpy/epc_schemes/sgtin.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..610664c 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,7 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index 2090d14..baf3550 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,7 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 2757886..2e50115 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,7 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From a65710f887cf7fb9842e3ab24d67b6f6f96c5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:00 +0000
Subject: [PATCH 13/24] fix: find the terminators of ADI tags on 6-bit
 boundaries

Decoding split at the first run of six zero bits, which can straddle two
characters: part numbers such as 10 or P0 were decoded to another EPC or
rejected, and an unterminated serial lost its last character.
---
 epcpy/epc_schemes/adi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..9a109c0 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,15 +200,16 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        groups = re.findall("[01]{6}", truncated_binary[50:])
+        terminators = [i for i, g in enumerate(groups) if g == "000000"]
+
+        if len(terminators) < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_binary = "".join(groups[: terminators[0]])
+        serial_binary_trimmed = "".join(groups[terminators[0] + 1 : terminators[1]])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
-- 
2.43.0


From 8b37aef97eea8e8b542556280f531d0eb687c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:02 +0000
Subject: [PATCH 14/24] fix: raise ConvertException for unknown headers and
 non-binary strings

Decoding a tag of another scheme raised KeyError, and characters other than
0 and 1 raised ValueError.
---
 epcpy/utils/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index be82ab3..9054bb3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -550,11 +550,14 @@ def parse_header_and_truncate_binary(
     Returns:
         Tuple[Enum, str]: Scheme and truncated binary
     """
+    if not re.fullmatch("[01]*", binary_string):
+        raise ConvertException(message="Binary string contains invalid characters")
+
     header = binary_string[:8]
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From 7cc28d3c3e93070700a2f593e37f27b0287d30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:05 +0000
Subject: [PATCH 15/24] fix: raise ConvertException for malformed hexadecimal
 and base64 strings

---
 epcpy/utils/common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 9054bb3..45be70e 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -108,7 +108,10 @@ def base64_to_hex(base64_string: str) -> str:
         str: Hexadecimal representation
     """
     # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -132,6 +135,9 @@ def hex_to_binary(hex_string: str) -> str:
     Returns:
         str: Binary string
     """
+    if not re.fullmatch("[0-9a-fA-F]+", hex_string):
+        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
-- 
2.43.0


From 0b31057698f8f9d48c9c36eac05ccc661517db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:08 +0000
Subject: [PATCH 16/24] fix: raise ConvertException for URIs without a scheme
 identifier

---
 epcpy/utils/parsers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..693cd5a 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,8 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    components = epc_pure_identity_uri.split(":")
+    identifier = components[3] if len(components) > 3 else None
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +318,8 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    components = epc_tag_uri.split(":")
+    identifier = components[3].split("-")[0] if len(components) > 3 else None
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From 372b28f38bb8f0827981e525fc0c76f4029dfc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:11 +0000
Subject: [PATCH 17/24] fix: pass positional arguments of hex() and base64() on
 to binary()

They were dropped, so GSRN and GSRNP silently ignored a positional filter
value and the other schemes raised TypeError.
---
 epcpy/epc_schemes/base_scheme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index da4accd..2a32455 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -109,7 +109,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The hexadecimal representation.
         """
-        binary = self.binary(**kwargs)
+        binary = self.binary(*args, **kwargs)
 
         padding = (16 - (len(binary) % 16)) % 16
         padded_binary = f"{binary:<0{len(binary) + padding}}"
@@ -122,7 +122,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The base64 representation.
         """
-        hex_string = self.hex(**kwargs)
+        hex_string = self.hex(*args, **kwargs)
 
         return hex_to_base64(hex_string)
 
-- 
2.43.0


From 7f85cc7703ab1a614816dc05b23a83a4dfe47e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:54 +0000
Subject: [PATCH 18/24] fix: raise ConvertException for very long GID and USDOD
 numbers

Numbers of more than 4300 digits made int() raise ValueError.
---
 epcpy/epc_schemes/gid.py   | 10 ++++++----
 epcpy/epc_schemes/usdod.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..02a9216 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -49,14 +49,16 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if len(self._manager) > 9 or int(self._manager) >= pow(2, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if len(self._object) > 8 or int(self._object) >= pow(2, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..a3aabb6 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -70,8 +70,10 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
-- 
2.43.0


From e71fd64c73540cf512cf1e38fb218b78c72795db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:57 +0000
Subject: [PATCH 19/24] fix: reject tags with characters after the end of a
 7-bit string

Zero characters inside a serial were skipped, so a corrupted tag decoded to
the EPC of another tag.
---
 epcpy/utils/common.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 45be70e..6c312f4 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -255,17 +255,18 @@ def decode_string(binary: str) -> str:
     Args:
         binary (str): Binary string to decode
 
+    Raises:
+        ConvertException: Characters after the end of the string
+
     Returns:
         str: Decoded string
     """
-    return "".join(
-        list(
-            map(
-                decode_binary_char,
-                re.findall("." * 7, binary),
-            )
-        )
-    )
+    res = [decode_binary_char(g) for g in re.findall("." * 7, binary)]
+
+    if "" in res and any(res[res.index("") :]):
+        raise ConvertException(message="Characters after the end of the string")
+
+    return "".join(res)
 
 
 def encode_partition_table(
-- 
2.43.0


From 789645b5f18df08b1f5d27297e5371efc1ff5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:59 +0000
Subject: [PATCH 20/24] fix: reject truncated CPI-var tags

A missing serial was decoded as 0 and a truncated one as a smaller number.
---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 epcpy/utils/common.py    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 40d6dd6..5de79d7 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -380,7 +380,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            serial_binary = serial_binary[:40]
+
+            if len(serial_binary) < 40:
+                raise ConvertException(message="Binary string too short for serial")
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 6c312f4..2352607 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -336,9 +336,12 @@ def decode_partition_table(
     """
     try:
         partition = partition_table[binary_to_int(binary_string[:3])]
-    except KeyError:
+    except (KeyError, ValueError):
         raise ConvertException(message=f"Invalid partition header {binary_string[:3]}")
 
+    if len(binary_string) < 3 + partition["M"]:
+        raise ConvertException(message="Binary string too short for company prefix")
+
     C = binary_to_int(binary_string[3 : (3 + partition["M"])])
 
     D_bin = binary_string[(3 + partition["M"]) : (3 + partition["M"] + partition["N"])]
-- 
2.43.0


From 855cf5b73cf1e19d388a93c5c2b8239de1ed5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:01 +0000
Subject: [PATCH 21/24] fix: reject tags whose reference exceeds its number of
 digits

The bits of an empty reference and the CPI-96 part reference were not
checked, so tags decoded to an EPC that has another tag or none at all.
---
 epcpy/utils/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 2352607..70b4e01 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -359,7 +359,9 @@ def decode_partition_table(
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
-    if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
+    if not (string_partition or six_bit_variable_partition) and not binary_to_int(
+        D_bin
+    ) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
     return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
-- 
2.43.0


From aa0c453ccca725fae0b0473d3fa132c0eb152707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:04 +0000
Subject: [PATCH 22/24] fix: reject tags with invalid 6-bit characters or cage
 codes

A percent sign in a 6-bit field decoded to the escape of another character,
and cage codes with embedded spaces or terminators lost them.
---
 epcpy/utils/common.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 70b4e01..89ac1a8 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -184,6 +184,7 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
 
     Raises:
         ConvertException: Resulting string too large
+        ConvertException: Resulting string contains invalid characters
 
     Returns:
         str: Decoded string
@@ -202,6 +203,9 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
     if len(res) > max_chars:
         raise ConvertException(message="Too many characters decoded!")
 
+    if not re.fullmatch("[0-9A-Z#/-]*", res):
+        raise ConvertException(message="Invalid characters decoded!")
+
     return res.replace("#", "%23").replace("/", "%2F")
 
 
@@ -455,7 +459,7 @@ def decode_cage_code(binary: str) -> str:
     """
     return "".join(
         [chr(int(g, 2)) if g != "" else "" for g in re.split("([0-1]{8})", binary)]
-    ).replace(" ", "")
+    ).lstrip(" ")
 
 
 def encode_cage_code(chars: str) -> str:
@@ -476,13 +480,21 @@ def decode_cage_code_six_bits(binary: str) -> str:
     Args:
         binary (str): Binary string to decode
 
+    Raises:
+        ConvertException: Cage code contains invalid characters
+
     Returns:
         str: Decoded string
     """
     if binary.startswith("100000"):
         binary = binary[6:]
 
-    return decode_string_six_bits(binary, 6)
+    cage_code = decode_string_six_bits(binary, 6)
+
+    if len(cage_code) * 6 != len(binary):
+        raise ConvertException(message="Invalid cage code")
+
+    return cage_code
 
 
 def encode_cage_code_six_bits(chars: str) -> str:
-- 
2.43.0


From a396a024caa898829903354e5cfaeff98872d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:25 +0000
Subject: [PATCH 23/24] fix: reject GIAI and GINC element strings without a
 numeric company prefix

---
 epcpy/epc_schemes/giai.py | 4 ++++
 epcpy/epc_schemes/ginc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index bab12e6..1e7e0bf 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -252,6 +252,10 @@ class GIAI(TagEncodable, GS1Keyed):
 
         digits = gs1_element_string[6 : 6 + company_prefix_length]
         chars = gs1_element_string[6 + company_prefix_length :]
+
+        if not digits.isdigit():
+            raise ConvertException(message=f"Invalid company prefix {digits}")
+
         chars = revert_uri_escapes(chars)
 
         return cls(f"urn:epc:id:giai:{digits}.{chars}")
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..d9c8c95 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -100,6 +100,10 @@ class GINC(GS1Keyed):
 
         digits = gs1_element_string[5 : 5 + company_prefix_length]
         chars = gs1_element_string[5 + company_prefix_length :]
+
+        if not digits.isdigit():
+            raise ConvertException(message=f"Invalid company prefix {digits}")
+
         chars = revert_uri_escapes(chars)
 
         return cls(f"urn:epc:id:ginc:{digits}.{chars}")
-- 
2.43.0


From 58da30d14390f001fa6cdc1f5487616b524755b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:02 +0000
Subject: [PATCH 24/24] fix: return the requested CPI tag URI when an instance
 is shared between threads

tag_uri() stored its result on the instance and returned the stored value.
Two threads asking one instance for different coding schemes or filters could
receive each other's tag URI.
---
 epcpy/epc_schemes/cpi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 5de79d7..02241d7 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -297,9 +297,7 @@ class CPI(GS1Element, TagEncodable):
         """
         self._verify_coding_scheme(binary_coding_scheme)
 
-        self._tag_uri = f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
-
-        return self._tag_uri
+        return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
 
     def binary(
         self,
-- 
2.43.0

