From 84a31384057e84febd8f2489c4f8998e533bf6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 01/57] fix: compare the last member of an AllDifferent list
 with the others (eq-diff2, eq-diff3)

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..73dea10 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,7 +424,7 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
                         if (
                             (zi, OWL.sameAs, zj) in self.graph
-- 
2.43.0


From 4a2fe9043fb9240e647cbc0c18faa1373e2ebc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/57] fix: compare the last member of an
 AllDisjointProperties list with the others (prp-adp)

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 73dea10..751ac8e 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From e03b48a8b12a31dece7e53375bc62e47f8a02ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 03/57] fix: check the last property of a key, too (prp-key)

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 751ac8e..f288010 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From 59817e0818f528b99a71bbc8b8f778708f275e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 04/57] fix: a sameAs link propagates the datatypes of a
 resource, the resource itself is not a datatype

---
 owlrl/OWLRL.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f288010..0357d95 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -253,9 +253,11 @@ class OWLRL_Semantics(Core):
             # note that s in implicit would mean that the original graph has
             # a literal in subject position which is not allowed at the moment, so I do not bother
             if o in explicit:
-                _append_to_explicit(s, o)
+                for dt in list(explicit[o]):
+                    _append_to_explicit(s, dt)
             if s in explicit:
-                _append_to_explicit(o, s)
+                for dt in list(explicit[s]):
+                    _append_to_explicit(o, dt)
 
         # what we have now:
         # explicit+implicit contains all the resources of type datatype;
-- 
2.43.0


From d6666b4efad0a97c0f4a234ffd0798555f7ffa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 05/57] fix: name the clashing individual in the
 complementarity error (cls-com)

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 0357d95..ac08664 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -689,7 +689,7 @@ class OWLRL_Semantics(Core):
                 if (x1, RDF.type, c2) in self.graph:
                     self.add_error(
                         "Violation of complementarity for classes %s and %s on element %s"
-                        % (c1, c2, x)
+                        % (c1, c2, x1)
                     )
 
         # RULES cls-svf1 and cls=svf2
-- 
2.43.0


From d532d5d026caceacdbb64af4ad4bc13b2d0e84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 06/57] fix: negative time zone offsets, and date/time values
 that are empty or end with garbage

---
 owlrl/DatatypeHandling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..926393a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -78,20 +78,20 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v.endswith("Z"):
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
-        pattern = r".*(\+|-)([0-9][0-9]):([0-9][0-9])"
-        match = re.match(pattern, incoming_v)
+        pattern = r".*(\+|-)(0[0-9]|1[0-3]|14(?=:00)):([0-5][0-9])"
+        match = re.fullmatch(pattern, incoming_v)
         if match is None:
             v = incoming_v
             tzone = None
         else:
             hours = int(match.groups()[1])
-            if match.groups()[0] == "-":
-                hours = -hours - 1
             minutes = int(match.groups()[2])
+            if match.groups()[0] == "-":
+                hours, minutes = -hours, -minutes
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 90c3d4e0676f55e2582c8f6aacd0676ad07d05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 07/57] fix: an ill-typed decimal raises ValueError and does
 not abort the expansion

---
 owlrl/DatatypeHandling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 926393a..f9e945d 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -124,9 +124,9 @@ def _strToDecimal(v):
     @return Decimal
     @raise ValueError: invalid decimal value
     """
-    # check whether the lexical form of 'v' is o.k.
-    if v.find("E") != -1 or v.find("e") != -1:
-        # this is an invalid lexical form, though would be accepted by Python
+    # check whether the lexical form of 'v' is o.k. (Python would accept, e.g., exponents, white space or NaN, and
+    # the exception it raises on a syntax error is not a ValueError)
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", v) is None:
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
         return Decimal(v)
-- 
2.43.0


From 8eeae6ef7e4be4245258b1587448318135cac2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 08/57] fix: booleans are case sensitive

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index f9e945d..903d320 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -105,9 +105,9 @@ def _strToBool(v):
     @return corresponding boolean value
     @raise ValueError: invalid boolean values
     """
-    if v.lower() == "true" or v.lower() == "1":
+    if v == "true" or v == "1":
         return True
-    elif v.lower() == "false" or v.lower() == "0":
+    elif v == "false" or v == "0":
         return False
     else:
         raise ValueError("Invalid boolean literal value %s" % v)
-- 
2.43.0


From 296c0827a0c27e7ee6907b5d20fcc663e0212cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 09/57] fix: integers with white space, underscores or
 non-ASCII digits are ill-typed

---
 owlrl/DatatypeHandling.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 903d320..52d0246 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -243,6 +243,18 @@ _limits_nonNegativeInteger = [-1, None]
 _limits_negativeInteger = [None, 0]
 
 
+# noinspection PyPep8Naming
+def _strToInteger(v):
+    """Test (and convert) an integer. Python's int is too lax, it accepts white space and underscores.
+    @param v: the literal string to be converted
+    @return int
+    @raise ValueError: invalid value
+    """
+    if re.fullmatch(r"[+-]?[0-9]+", v) is None:
+        raise ValueError("Invalid integer value %s" % v)
+    return int(v)
+
+
 # noinspection PyPep8Naming,PyBroadException
 def _strToBoundNumeral(v, interval, conversion):
     """Test (and convert) a generic numerical type, with a check against a lower and upper limit.
@@ -646,27 +658,27 @@ AltXSDToPYTHON = {
     XSD.base64Binary: _strToBase64Binary,
     XSD.double: _strToDouble,
     XSD.float: _strToFloat,
-    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, int),
-    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, int),
-    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, int),
-    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, int),
+    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, _strToInteger),
+    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, _strToInteger),
+    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, _strToInteger),
+    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, _strToInteger),
     XSD.nonPositiveInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonPositiveInteger, int
+        v, _limits_nonPositiveInteger, _strToInteger
     ),
-    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, int),
+    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, _strToInteger),
     XSD.nonNegativeInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonNegativeInteger, int
+        v, _limits_nonNegativeInteger, _strToInteger
     ),
-    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, int),
-    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, int),
-    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, int),
-    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, int),
-    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, int),
+    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, _strToInteger),
+    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, _strToInteger),
+    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, _strToInteger),
+    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, _strToInteger),
+    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, _strToInteger),
     XSD.hexBinary: _strToHexBinary,
     XSD.dateTime: lambda v: _strToDateTimeAndStamp(v, False),
     XSD.dateTimeStamp: lambda v: _strToDateTimeAndStamp(v, True),
     RDF.XMLLiteral: _strToXMLLiteral,
-    XSD.integer: int,
+    XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
     XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
-- 
2.43.0


From a42a4cf65a490efa6164ae6d9a8100e8fc6d8bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 10/57] fix: zero, INF and NaN are valid floats and doubles

---
 owlrl/DatatypeHandling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 52d0246..47b9ecd 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -275,6 +275,10 @@ def _strToBoundNumeral(v, interval, conversion):
 
 
 # Double and float ##################################################
+# lexical form of a double or a float
+_re_double = r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?INF|NaN"
+
+
 # noinspection PyPep8Naming
 def _strToDouble(v):
     """Test and convert a double value into a Decimal or float. Raises an exception if the number is outside the
@@ -287,10 +291,12 @@ def _strToDouble(v):
     @raise ValueError: invalid value
     """
     try:
+        if re.fullmatch(_re_double, v) is None:
+            raise ValueError("Invalid double %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if lower < abs(value) < upper:
+        if not value.is_finite() or value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
@@ -310,10 +316,12 @@ def _strToFloat(v):
     @raise ValueError: invalid value
     """
     try:
+        if re.fullmatch(_re_double, v) is None:
+            raise ValueError("Invalid float %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if lower < abs(value) < upper:
+        if not value.is_finite() or value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From 3f24dbfa594fc7ad76b5211e39da1b4966a59ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 11/57] fix: hexBinary needs an even number of hexadecimal
 digits and denotes binary content

---
 owlrl/DatatypeHandling.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 47b9ecd..fbb8f1f 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -334,16 +334,15 @@ def _strToFloat(v):
 # hexa ##################################################
 # noinspection PyPep8Naming
 def _strToHexBinary(v):
-    """Test (and convert) hexa integer values. The number of characters should be even.
+    """Test (and convert) hexa binary values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return the decoded (binary) content
     @raise ValueError: invalid value
     """
-    # first of all, the number of characters must be even according to the xsd spec:
-    length = len(v)
-    if (length / 2) * 2 != length:
+    # the number of characters must be even according to the xsd spec:
+    if re.fullmatch(r"([0-9a-fA-F]{2})*", v) is None:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
+    return bytes.fromhex(v)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From 6ec72ca5237df8a358fd4d637c5e297286e63940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 12/57] fix: an empty base64Binary is valid, misplaced padding
 is not

---
 owlrl/DatatypeHandling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index fbb8f1f..fd4f1b3 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -175,6 +175,13 @@ def _strToAnyURI(v):
 
 
 # Base64Binary ##################################################
+# lexical form of a base64Binary: groups of four characters (possibly separated by a space), the last one padded
+_re_base64 = (
+    r"((([A-Za-z0-9+/] ?){4})*"
+    r"(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|[A-Za-z0-9+/] ?[AQgw] ?= ?=))?"
+)
+
+
 # noinspection PyPep8Naming
 def _strToBase64Binary(v):
     """Rudimentary test for the base64Binary value. The problem is that the built-in b64 module functions ignore the
@@ -185,7 +192,7 @@ def _strToBase64Binary(v):
     """
     import base64
 
-    if v.replace("=", "x").replace("+", "y").replace("/", "z").isalnum():
+    if re.fullmatch(_re_base64, v) is not None:
         try:
             return base64.standard_b64decode(v)
         except:
-- 
2.43.0


From 76c65883e10085a7349daadf017a6639956c2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 13/57] fix: an empty normalizedString is valid

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index fd4f1b3..e69fab6 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -695,7 +695,7 @@ AltXSDToPYTHON = {
     XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
-    XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
+    XSD.normalizedString: lambda v: v if v == "" else _strToVal_Regexp(v, _re_token),
     # These are RDFS specific...
     XSD.time: _strToTime,
     XSD.date: _strToDate,
-- 
2.43.0


From 396fc46e9c3d1f00788f9d582945f7c1db848c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 14/57] fix: a plain literal may contain several lines

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index e69fab6..fce8b0d 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -638,7 +638,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.match(reg, v, re.S)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
-- 
2.43.0


From 1b09c2d19504785f9f88de432640f76c0245cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 15/57] fix: fractional seconds, and strict lexical forms, for
 dates and times

---
 owlrl/DatatypeHandling.py | 44 ++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index fce8b0d..8b70f18 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -371,17 +371,12 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
         raise ValueError("Invalid datetime %s" % incoming_v)
 
     # The microseconds should be handled here...
-    final_v = v
-    milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
-    if match is not None:
-        # we have a millisecond portion...
-        try:
-            final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
-        except:
-            raise ValueError("Invalid datetime %s" % incoming_v)
+    match = re.fullmatch(r"([0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2})(\.[0-9]+)?", v)
+    if match is None:
+        raise ValueError("Invalid datetime %s" % incoming_v)
+    final_v = match.groups()[0]
+    # Python's precision is a microsecond
+    microseconds = int(((match.groups()[1] or ".") + "000000")[1:7])
     #
     # By now, the pattern should be clear
     # This may raise an exception...
@@ -395,7 +390,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_hour,
                 tstr.tm_min,
                 tstr.tm_sec,
-                milliseconds,
+                microseconds,
                 tzone,
             )
         else:
@@ -406,7 +401,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_hour,
                 tstr.tm_min,
                 tstr.tm_sec,
-                milliseconds,
+                microseconds,
             )
     except:
         raise ValueError("Invalid datetime %s" % incoming_v)
@@ -425,17 +420,12 @@ def _strToTime(incoming_v):
     (v, tzone) = _returnTimeZone(incoming_v)
 
     # The microseconds should be handled here...
-    final_v = v
-    milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
-    if match is not None:
-        # we have a millisecond portion...
-        try:
-            final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
-        except:
-            raise ValueError("Invalid datetime %s" % incoming_v)
+    match = re.fullmatch(r"([0-9]{2}:[0-9]{2}:[0-9]{2})(\.[0-9]+)?", v)
+    if match is None:
+        raise ValueError("Invalid time %s" % incoming_v)
+    final_v = match.groups()[0]
+    # Python's precision is a microsecond
+    microseconds = int(((match.groups()[1] or ".") + "000000")[1:7])
     #
     # By now, the pattern should be clear
     # This may raise an exception...
@@ -443,10 +433,10 @@ def _strToTime(incoming_v):
         tstr = time.strptime(final_v, "%H:%M:%S")
         if tzone is not None:
             return datetime.time(
-                tstr.tm_hour, tstr.tm_min, tstr.tm_sec, milliseconds, tzone
+                tstr.tm_hour, tstr.tm_min, tstr.tm_sec, microseconds, tzone
             )
         else:
-            return datetime.time(tstr.tm_hour, tstr.tm_min, tstr.tm_sec, milliseconds)
+            return datetime.time(tstr.tm_hour, tstr.tm_min, tstr.tm_sec, microseconds)
     except:
         raise ValueError("Invalid time %s" % incoming_v)
 
@@ -465,6 +455,8 @@ def _strToDate(incoming_v):
 
     # This may raise an exception...
     try:
+        if re.fullmatch(r"[0-9]{4}-[0-9]{2}-[0-9]{2}", final_v) is None:
+            raise ValueError("Invalid date %s" % incoming_v)
         tstr = time.strptime(final_v, "%Y-%m-%d")
         return datetime.date(tstr.tm_year, tstr.tm_mon, tstr.tm_mday)
     except:
-- 
2.43.0


From d8c7ba951e00f7c35e669b6fb1fbf08730a4dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 16/57] fix: lexical forms of gMonthDay, gDay and gMonth, time
 zones and long years for the g datatypes

---
 owlrl/DatatypeHandling.py | 53 ++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8b70f18..cecb091 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -467,6 +467,23 @@ def _strToDate(incoming_v):
 # The 'g' datatypes (eg, gYear) cannot be directly represented as a python datatype
 # the series of methods below simply check whether the incoming string is o.k., but the
 # returned value is the same as the original
+# lexical form of a year
+_re_year = r"-?([1-9][0-9]{3,}|0[0-9]{3})"
+
+
+def _strToG(v, regexp, name):
+    """Test a value of the 'g' series
+    @param v: the literal string, possibly with a timezone
+    @param regexp: regular expression for the value without the timezone
+    @param name: name of the datatype
+    @return v
+    @raise ValueError: invalid value
+    """
+    if re.fullmatch(regexp, _returnTimeZone(v)[0]) is None:
+        raise ValueError("Invalid %s %s" % (name, v))
+    return v
+
+
 # noinspection PyPep8Naming
 def _strTogYearMonth(v):
     """Test gYearMonth value
@@ -474,11 +491,7 @@ def _strTogYearMonth(v):
     @return v
     @raise ValueError: invalid value
     """
-    try:
-        time.strptime(v + "-01", "%Y-%m-%d")
-        return v
-    except:
-        raise ValueError("Invalid gYearMonth %s" % v)
+    return _strToG(v, _re_year + "-(0[1-9]|1[0-2])", "gYearMonth")
 
 
 # noinspection PyPep8Naming
@@ -488,53 +501,37 @@ def _strTogYear(v):
     @return v
     @raise ValueError: invalid value
     """
-    try:
-        time.strptime(v + "-01-01", "%Y-%m-%d")
-        return v
-    except:
-        raise ValueError("Invalid gYear %s" % v)
+    return _strToG(v, _re_year, "gYear")
 
 
 # noinspection PyPep8Naming
 def _strTogMonthDay(v):
-    """Test gYearMonth value
+    """Test gMonthDay value
     @param v: the literal string
     @return v
     @raise ValueError: invalid value
     """
-    try:
-        time.strptime("2008-" + v, "%Y-%m-%d")
-        return v
-    except:
-        raise ValueError("Invalid gMonthDay %s" % v)
+    return _strToG(v, r"--((0[1-9]|1[0-2])-(0[1-9]|1[0-9]|2[0-9])|(0[13-9]|1[0-2])-30|(0[13578]|1[02])-31)", "gMonthDay")
 
 
 # noinspection PyPep8Naming
 def _strTogDay(v):
-    """Test gYearMonth value
+    """Test gDay value
     @param v: the literal string
     @return v
     @raise ValueError: invalid value
     """
-    try:
-        time.strptime("2001-01-" + v, "%Y-%m-%d")
-        return v
-    except:
-        raise ValueError("Invalid gDay %s" % v)
+    return _strToG(v, r"---(0[1-9]|[12][0-9]|3[01])", "gDay")
 
 
 # noinspection PyPep8Naming
 def _strTogMonth(v):
-    """Test gYearMonth value
+    """Test gMonth value
     @param v: the literal string
     @return v
     @raise ValueError: invalid value
     """
-    try:
-        time.strptime("2001-" + v + "-01", "%Y-%m-%d")
-        return v
-    except:
-        raise ValueError("Invalid gMonth %s" % v)
+    return _strToG(v, r"--(0[1-9]|1[0-2])", "gMonth")
 
 
 # XML Literal #########################################
-- 
2.43.0


From fa14388509b0c099d089bf602fe85ff54362d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 17/57] fix: xsd:NMTOKEN is not a subtype of xsd:Name

---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From 38e5416d0ab09b3a7c901777113fdcace88989a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 18/57] fix: rdfs4a and rdfs4b apply to derived triples, too

---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..5bfc2f6 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From d1a764da38348055f8e3a46e14fd8a0d0db8f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 19/57] fix: literals with different language tags, or booleans
 and numbers, are not the same value

---
 owlrl/RDFSClosure.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 5bfc2f6..00bbbf0 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -31,7 +31,7 @@ from typing import Union
 
 import rdflib
 from rdflib import Literal, Graph
-from rdflib.namespace import RDF, RDFS
+from rdflib.namespace import RDF, RDFS, XSD
 from itertools import product
 from owlrl.Closure import Core
 from owlrl.AxiomaticTriples import RDFS_Axiomatic_Triples, RDFS_D_Axiomatic_Triples
@@ -39,6 +39,11 @@ from owlrl.AxiomaticTriples import RDFS_Axiomatic_Triples, RDFS_D_Axiomatic_Trip
 
 ######################################################################################################
 
+# Datatypes whose values differ from those of all other datatypes, even if the Python values happen to be equal (e.g.
+# True == 1)
+_separate_datatypes = (XSD.boolean, XSD.anyURI, XSD.hexBinary, XSD.base64Binary)
+
+
 # RDFS Semantics class
 # noinspection PyPep8Naming
 class RDFS_Semantics(Core):
@@ -111,6 +116,12 @@ class RDFS_Semantics(Core):
 
     @staticmethod
     def _literals_same_as(lt1, lt2):
+        if (lt1.language or "").lower() != (lt2.language or "").lower():
+            return False
+        if lt1.datatype != lt2.datatype and (
+            lt1.datatype in _separate_datatypes or lt2.datatype in _separate_datatypes
+        ):
+            return False
         if lt1.value is not None and lt2.value is not None:
             return lt1.value == lt2.value
         elif lt1.datatype is not None and lt2.datatype is not None:
-- 
2.43.0


From caae86409dd6a0d4560da1e58f97bed8eb2dc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 20/57] fix: the maximal container membership index with gaps,
 repeated use and named graphs

---
 owlrl/Closure.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..f2cdbaa 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -25,6 +25,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import re
 from typing import Union
 
 import rdflib
@@ -108,24 +109,18 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
+        maxnum = 0
+        for predicate in set(graph.predicates()):
+            match = re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", predicate)
+            if match is not None:
+                maxnum = max(maxnum, int(match.group(1)))
+        self.IMaxNum = maxnum
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
-- 
2.43.0


From 4fe94ec0c2c61217804e4e0e5f78bde02206b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 21/57] fix: a separate destination graph gets the full closure
 and the source is left alone

---
 owlrl/Closure.py | 6 +++++-
 owlrl/OWLRL.py   | 1 -
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index f2cdbaa..721fbea 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -31,6 +31,7 @@ from typing import Union
 import rdflib
 from rdflib.namespace import RDF
 from rdflib import BNode, Literal, Graph, Dataset
+from rdflib.graph import ReadOnlyGraphAggregate
 from .Namespaces import ERRNS
 
 try:
@@ -136,8 +137,11 @@ class Core:
                 source_store = self.graph.store
                 dest_store = destination.store
                 if source_store is not dest_store:
-                    raise ValueError("The source and destination graphs share the same backing store")
+                    raise ValueError("The source and destination graphs must share the same backing store")
                 self.destination = destination
+                if destination != graph and not isinstance(graph, (Dataset, ConjunctiveGraph)):
+                    # the rules must see what has been inferred already
+                    self.graph = ReadOnlyGraphAggregate([graph, destination])
 
         self.axioms = axioms
         self.daxioms = daxioms
diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index ac08664..4d08433 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -135,7 +135,6 @@ class OWLRL_Semantics(Core):
                     to_be_removed.append(t)
         for t in to_be_removed:
             self.destination.remove(t)
-            self.graph.remove(t)
 
     def add_axioms(self):
         """
-- 
2.43.0


From 05141a8a3fd6b5294867568921a888f303d1b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 22/57] fix: classes and properties in a cycle are their own
 sub-class, sub-property and equivalent (scm-sco, scm-spo, scm-eqp2)

---
 owlrl/OWLRL.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 4d08433..c163d10 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -884,9 +884,7 @@ class OWLRL_Semantics(Core):
             # Optimize out the trivial identity case (set elsewhere already)
             if c1 != c2:
                 for c3 in self.graph.objects(c2, RDFS.subClassOf):
-                    # Another axiom already sets that...
-                    if c1 != c3:
-                        self.store_triple((c1, RDFS.subClassOf, c3))
+                    self.store_triple((c1, RDFS.subClassOf, c3))
             # RULE scm-eqc2
             if (c2, RDFS.subClassOf, c1) in self.graph:
                 self.store_triple((c1, OWL.equivalentClass, c2))
@@ -908,14 +906,13 @@ class OWLRL_Semantics(Core):
 
         # RULE scm-spo
         # RULE scm-eqp2
-        elif p == RDFS.subPropertyOf and s != o:
+        elif p == RDFS.subPropertyOf:
             p1, p2 = s, o
             # Optimize out the trivial identity case (set elsewhere already)
             # RULE scm-spo
             if p1 != p2:
                 for p3 in self.graph.objects(p2, RDFS.subPropertyOf):
-                    if p1 != p3:
-                        self.store_triple((p1, RDFS.subPropertyOf, p3))
+                    self.store_triple((p1, RDFS.subPropertyOf, p3))
 
             # RULE scm-eqp2
             if (p2, RDFS.subPropertyOf, p1) in self.graph:
-- 
2.43.0


From 26c9015a600af6b0556dbded261bc83ff561331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 23/57] fix: a cardinality that is not a literal does not abort
 the expansion

---
 owlrl/OWLRL.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index c163d10..7244126 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -734,7 +734,8 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            value = x.value if isinstance(x, rdflib.Literal) else None
+            if value == 0:
                 # RULE cls-maxc1
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y in self.graph.subject_objects(pp):
@@ -744,7 +745,7 @@ class OWLRL_Semantics(Core):
                                 "Erroneous usage of maximum cardinality with %s and %s"
                                 % (xx, y)
                             )
-            elif x.value == 1:
+            elif value == 1:
                 # RULE cls-maxc2
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y1 in self.graph.subject_objects(pp):
@@ -761,7 +762,8 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            value = x.value if isinstance(x, rdflib.Literal) else None
+            if value == 0:
                 # RULES cls-maxqc1 and cls-maxqc2 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
@@ -774,7 +776,7 @@ class OWLRL_Semantics(Core):
                                     "Erroneous usage of maximum qualified cardinality with %s, %s and %s"
                                     % (xx, cc, y)
                                 )
-            elif x.value == 1:
+            elif value == 1:
                 # RULE cls-maxqc3 and cls-maxqc4 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
-- 
2.43.0


From 7f375ee1a6228320d160e7166932ce79a8e48c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 24/57] fix: a cyclic rdf:List does not abort the expansion

---
 owlrl/OWLRL.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 7244126..b47ac53 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -122,7 +122,11 @@ class OWLRL_Semantics(Core):
         @param l: RDFLib resource, should be the head of an rdf:List
         @return: array of resources
         """
-        return [ch for ch in self.graph.items(l)]
+        try:
+            return [ch for ch in self.graph.items(l)]
+        except ValueError:
+            # the list is cyclic, ie, this is not a list at all
+            return []
 
     def post_process(self):
         """
-- 
2.43.0


From 3dd486c025feb9a57f09d46d378effd31e8efb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 25/57] fix: facet violations in allValuesFrom restrictions are
 reported

---
 owlrl/OWLRLExtras.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..cd07a56 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -201,10 +201,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, rdflib.Literal):
+                        return rt.checkValue(v.toPython())
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 2cd7978107ffd683db89a6bb914b8112e4063ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 26/57] fix: a class or property equivalent to itself is its
 own sub-class or sub-property (scm-eqc1, scm-eqp1)

---
 owlrl/OWLRL.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index b47ac53..e8bb68c 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -896,7 +896,7 @@ class OWLRL_Semantics(Core):
                 self.store_triple((c1, OWL.equivalentClass, c2))
 
         # RULE scm-eqc
-        elif p == OWL.equivalentClass and s != o:
+        elif p == OWL.equivalentClass:
             c1, c2 = s, o
             self.store_triple((c1, RDFS.subClassOf, c2))
             self.store_triple((c2, RDFS.subClassOf, c1))
@@ -925,8 +925,7 @@ class OWLRL_Semantics(Core):
                 self.store_triple((p1, OWL.equivalentProperty, p2))
 
         # RULE scm-eqp
-        # Optimize out the trivial identity case (set elsewhere already)
-        elif p == OWL.equivalentProperty and s != o:
+        elif p == OWL.equivalentProperty:
             p1, p2 = s, o
             self.store_triple((p1, RDFS.subPropertyOf, p2))
             self.store_triple((p2, RDFS.subPropertyOf, p1))
-- 
2.43.0


From d9b33e933d30937e4819d49c62bd5fb16c7f93fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 27/57] fix: an expansion restores the lexical conversions and
 datatype tables, even if it fails

---
 owlrl/__init__.py | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..516d87b 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -171,7 +171,7 @@ from typing import Union
 import rdflib
 from rdflib import Graph, Literal
 
-from . import DatatypeHandling, Closure
+from . import DatatypeHandling, Closure, XsdDatatypes
 from .OWLRLExtras import OWLRL_Extension, OWLRL_Extension_Trimming
 from .OWLRL import OWLRL_Semantics
 from .RDFSClosure import RDFS_Semantics
@@ -395,20 +395,35 @@ class DeductiveClosure:
         :param destination: The RDF graph to which the results are written. If not specified, the graph is modified in-place.
         :type destination: :class:`rdflib.Graph`
         """
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_Alt_lexical_conversions()
-
-        if self.closure_class is not None:
-            self.closure_class(
-                graph,
-                self.axiomatic_triples,
-                self.datatype_axioms,
-                rdfs=self.rdfs_closure,
-                destination=destination
-            ).closure()
-
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_RDFLib_lexical_conversions()
+        # The closure class may install lexical conversions, and it may add its own datatypes to the tables of datatypes
+        # (see, eg, add_new_datatype). These must not have an influence on anything but this expansion.
+        dicts = [
+            (table, dict(table))
+            for table in (
+                DatatypeHandling._toPythonMapping,
+                DatatypeHandling.AltXSDToPYTHON,
+                XsdDatatypes.OWL_Datatype_Subsumptions,
+            )
+        ]
+        datatypes = list(XsdDatatypes.OWL_RL_Datatypes)
+
+        try:
+            if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
+                DatatypeHandling.use_Alt_lexical_conversions()
+
+            if self.closure_class is not None:
+                self.closure_class(
+                    graph,
+                    self.axiomatic_triples,
+                    self.datatype_axioms,
+                    rdfs=self.rdfs_closure,
+                    destination=destination
+                ).closure()
+        finally:
+            for table, original in dicts:
+                table.clear()
+                table.update(original)
+            XsdDatatypes.OWL_RL_Datatypes[:] = datatypes
 
     @staticmethod
     def use_improved_datatypes_conversions():
-- 
2.43.0


From f3987019a4a892e47fa8dc35029574fddcd036fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 28/57] fix: switching back to RDFLib's conversions removes
 those RDFLib does not have

---
 owlrl/DatatypeHandling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index cecb091..4d1630f 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -710,6 +710,9 @@ def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
+    for datatype in AltXSDToPYTHON:
+        if datatype not in XSDToPython:
+            _toPythonMapping.pop(datatype, None)
     _toPythonMapping.update(XSDToPython)
 
 
-- 
2.43.0


From 16f0e4c25971878e2e48bd81242f9d05884c489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 29/57] fix: the combined closure includes the one time rules
 of RDFS

---
 owlrl/CombinedClosure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/owlrl/CombinedClosure.py b/owlrl/CombinedClosure.py
index 9ea95c9..42ce5ac 100755
--- a/owlrl/CombinedClosure.py
+++ b/owlrl/CombinedClosure.py
@@ -177,6 +177,7 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
         for t in self.full_binding_triples:
             self.store_triple(t)
 
-        # Note that the RL one time rules include the management of datatype which is a true superset
-        # of the rules in RDFS. It is therefore unnecessary to add those even self.rdfs is True.
+        # The RL one time rules do not compare literals, so the one time rules in RDFS are necessary, too
+        if self.rdfs:
+            RDFS_Semantics.one_time_rules(self)
         OWLRL_Semantics.one_time_rules(self)
-- 
2.43.0


From 866b354af51a07d995be11ea896fc04aa3618cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 30/57] fix: super-datatypes of datatypes that are added to the
 hierarchy by extensions

---
 owlrl/OWLRL.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e8bb68c..6ced2fc 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -192,11 +192,16 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-            if dt in OWL_Datatype_Subsumptions:
-                for new_dt in OWL_Datatype_Subsumptions[dt]:
-                    self.store_triple((r, RDF.type, new_dt))
-                    self.store_triple((new_dt, RDF.type, RDFS.Datatype))
-                    used_datatypes.add(new_dt)
+            # extensions may add datatypes to the hierarchy, ie, the values in the dictionary may not be complete
+            done, to_do = {dt}, [dt]
+            while to_do:
+                for new_dt in OWL_Datatype_Subsumptions.get(to_do.pop(), []):
+                    if new_dt not in done:
+                        done.add(new_dt)
+                        to_do.append(new_dt)
+                        self.store_triple((r, RDF.type, new_dt))
+                        self.store_triple((new_dt, RDF.type, RDFS.Datatype))
+                        used_datatypes.add(new_dt)
 
         # explicit object->datatype relationships: those that came from an object being typed as a datatype
         # or a sameAs. The values are arrays of datatypes to which the resource belong
-- 
2.43.0


From 429c6e9a1a753b31568b7497df2e893cd078f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 31/57] fix: super-datatypes and disjointness of datatypes that
 come into use by inference

---
 owlrl/OWLRL.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 6ced2fc..77edc10 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -345,6 +345,7 @@ class OWLRL_Semantics(Core):
         self._equality(t, cycle_num)
         self._classes(t, cycle_num)
         self._class_axioms(t, cycle_num)
+        self._datatypes(t, cycle_num)
         self._schema_vocabulary(t, cycle_num)
 
     def _property_chain(self, p, x):
@@ -866,6 +867,22 @@ class OWLRL_Semantics(Core):
                                         % (cl1, cl2, z)
                                     )
 
+    def _datatypes(self, triple, cycle_num):
+        """
+        Resources may get a datatype as their type through other rules. Just like for those that are typed from the start
+        (see the one time rules), the super-datatypes and the disjointness statements of that datatype must be added.
+        @param triple: triple to work on
+        @param cycle_num: which cycle are we in, starting with 1. Can be used for some optimization.
+        """
+        dt, p, o = triple
+        if p == RDF.type and o == RDFS.Datatype and (None, RDF.type, dt) in self.graph:
+            for x in self.graph.subjects(RDF.type, dt):
+                for super_dt in OWL_Datatype_Subsumptions.get(dt, []):
+                    self.store_triple((x, RDF.type, super_dt))
+            for (l, pred, r) in OWLRL_Datatypes_Disjointness:
+                if l == dt and (None, RDF.type, r) in self.graph:
+                    self.store_triple((l, pred, r))
+
     def _schema_vocabulary(self, triple, cycle_num):
         """
         Table 9: The Semantics of Schema Vocabulary. Essentially, the scm-* rules
-- 
2.43.0


From 186aacbed851d57809d92c8418f5646560aa1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 32/57] fix: facets on xsd:int and xsd:token

---
 owlrl/RestrictedDatatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..02fba1f 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -83,6 +83,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -105,6 +106,7 @@ Datatypes_per_facets = {
         XSD.NCName,
         XSD.language,
         XSD.normalizedString,
+        XSD.token,
     ],
     LENGTH_PATTERN_LRANGE: [RDF.PlainLiteral],
 }
-- 
2.43.0


From 43fad8b2b7e0135bfa035e31b799577930e943ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 33/57] fix: a pattern facet must match the whole value

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 02fba1f..93222c9 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -543,7 +543,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From 1669b62c7f514a921a23632313883d9e146a5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 34/57] fix: pattern facets on rdf:PlainLiteral

---
 owlrl/RestrictedDatatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 93222c9..1438457 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -421,6 +421,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
-- 
2.43.0


From 67863a7542a8d190a02bd01cf48d26b43daf8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 35/57] fix: language range facets on values without a language
 tag

---
 owlrl/RestrictedDatatype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 1438457..18a1549 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -554,7 +554,9 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         @param value: the value to be checked
         @rtype: boolean
         """
-        if isinstance(value, rdflibLiteral):
+        if len(self.langRange) == 0:
+            return True
+        if isinstance(value, rdflibLiteral) and value.language is not None:
             lang = value.language
         else:
             return False
-- 
2.43.0


From df788dc47f3252cf94d0c223c58f104e25b6adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 36/57] fix: all length facets of a restricted datatype must
 hold

---
 owlrl/RestrictedDatatype.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 18a1549..efe8ef8 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -386,7 +386,12 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             elif facet == RDF.langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
+                # if there are several of these, all of them must hold
                 self.length = value
+                if self.maxLength is None or value < self.maxLength:
+                    self.maxLength = value
+                if self.minLength is None or value > self.minLength:
+                    self.minLength = value
             elif facet == XSD.maxLength and (
                 self.maxLength is None or value < self.maxLength
             ):
-- 
2.43.0


From caf77fb8af4735e3719ad27c6d299f5ee3ecf1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 37/57] fix: values that cannot be compared with a facet are
 outside of the restricted datatype

---
 owlrl/RestrictedDatatype.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index efe8ef8..728d93d 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -444,9 +444,13 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         :param value: The value to be checked.
         :rtype: bool
         """
-        for method in self.check_methods:
-            if not method(self, value):
-                return False
+        try:
+            for method in self.check_methods:
+                if not method(self, value):
+                    return False
+        except (TypeError, ArithmeticError):
+            # the value cannot be compared with the facets (e.g., NaN, or only one of them has a time zone)
+            return False
         return True
 
     def _check_min_exclusive(self, value):
-- 
2.43.0


From 0f60b93b6d8371a6d796d48f71dcad14f5df39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 38/57] fix: rdf:PlainLiteral and rdf:XMLLiteral are disjoint

---
 owlrl/AxiomaticTriples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 5eeec22..ecfa107 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -557,6 +557,7 @@ OWLRL_Datatypes_Disjointness = [
     (XSD.hexBinary, OWL.disjointWith, RDF.PlainLiteral),
     (XSD.hexBinary, OWL.disjointWith, RDF.XMLLiteral),
     (XSD.string, OWL.disjointWith, RDF.XMLLiteral),
+    (RDF.PlainLiteral, OWL.disjointWith, RDF.XMLLiteral),
 ]
 
 # OWL RL D Axiomatic triples: combination of the RDFS ones, plus some extra statements on ranges and domains, plus
-- 
2.43.0


From dd1af4778cece395c18ac0e8fbf1d04a94d5806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 39/57] fix: the domain (and not the range) of owl:unionOf is
 owl:Class

---
 owlrl/AxiomaticTriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index ecfa107..2905d8a 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -451,7 +451,7 @@ _OWL_axiomatic_triples_Properties = [
     (OWL.onDatatype, RDFS.range, OWL.DataRange),
     (OWL.oneOf, RDFS.domain, OWL.Class),
     (OWL.someValuesFrom, RDFS.range, OWL.Class),
-    (OWL.unionOf, RDFS.range, OWL.Class),
+    (OWL.unionOf, RDFS.domain, OWL.Class),
     #    (OWL.withRestrictions, RDFS.domain, OWL.DataRange)
 ]
 
-- 
2.43.0


From 17772928734aee3c15b2723e5f989c71f4832c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 40/57] fix: RDF/XML input and output can be asked for with any
 of the documented names

---
 owlrl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 516d87b..ff102dd 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -211,7 +211,7 @@ def __parse_input(iformat, inp, graph):
         format = "turtle"
     elif iformat == RDFA:
         format = "rdfa1.1"
-    elif iformat == RDFXML:
+    elif iformat == RDFXML or iformat == "rdfxml":
         format = "xml"
     elif iformat == JSON:
         format = "json-ld"
@@ -601,7 +601,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format == "rdfxml" or options.format == RDFXML:
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From 792b9beeafa4dabb8509f99a06bd2f7d7c47c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 41/57] fix: cyclic owl:imports do not loop forever

---
 owlrl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index ff102dd..1d65914 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -243,6 +243,8 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    # documents that have been imported already; import statements may be cyclic
+    imported = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
@@ -256,6 +258,9 @@ def interpret_owl_imports(iformat, graph):
         for (s, p, uri) in all_imports:
             # this is not 100% kosher. The expected object for an import statement is a URI. However,
             # on local usage, a string would also make sense, so I do that one, too
+            if str(uri) in imported:
+                continue
+            imported.add(str(uri))
             if isinstance(uri, Literal):
                 __parse_input(iformat, str(uri), graph)
             else:
-- 
2.43.0


From 53cc3749c286de890a9f155898e0d2fcb12fab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 42/57] fix: convert_graph serializes standard RDF only

---
 owlrl/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 1d65914..85c8125 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -169,7 +169,7 @@ from typing import Union
 
 # noinspection PyPackageRequirements,PyPackageRequirements,PyPackageRequirements
 import rdflib
-from rdflib import Graph, Literal
+from rdflib import Graph, Literal, URIRef
 
 from . import DatatypeHandling, Closure, XsdDatatypes
 from .OWLRLExtras import OWLRL_Extension, OWLRL_Extension_Trimming
@@ -606,6 +606,11 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
+    # The closure may contain triples that are not standard RDF (and whose serialization would be wrong)
+    for t in list(graph):
+        if isinstance(t[0], Literal) or not isinstance(t[1], URIRef):
+            graph.remove(t)
+
     if options.format == "rdfxml" or options.format == RDFXML:
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
-- 
2.43.0


From d6b36c41ab93d0c53272c4abd4565f0e173cfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 43/57] fix: the --maximal option of the script includes RDFS

---
 scripts/owlrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/owlrl b/scripts/owlrl
index fa8be8c..dac232a 100755
--- a/scripts/owlrl
+++ b/scripts/owlrl
@@ -86,6 +86,7 @@ def main():
         options.trimming = "yes"
         options.owlClosure = "yes"
         options.owlExtras = "yes"
+        options.rdfsClosure = "yes"
             
     print(convert_graph(options))
 
-- 
2.43.0


From c4905046675f0f1307d7ab765b80e63dd0bd9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 44/57] fix: xsd:nonNegativeInteger and xsd:negativeInteger are
 declared in the datatype axioms

---
 owlrl/AxiomaticTriples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 2905d8a..42f9984 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -142,9 +142,9 @@ RDFS_D_Axiomatic_Triples_types = [
     (XSD.integer, RDF.type, RDFS.Datatype),
     (XSD.decimal, RDF.type, RDFS.Datatype),
     (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.nonNegativeInteger, RDF.type, RDFS.Datatype),
     (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.negativeInteger, RDF.type, RDFS.Datatype),
     (XSD.long, RDF.type, RDFS.Datatype),
     (XSD.int, RDF.type, RDFS.Datatype),
     (XSD.short, RDF.type, RDFS.Datatype),
-- 
2.43.0


From fb692ae445a1e448dd334f8778b96f15a1792470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:24 +0000
Subject: [PATCH 45/57] fix: a list is used only if it is complete (C01, C07)

An rdf:List whose end is missing, or a cell without a member, was treated as a complete
list. While the rest of a list was still to be derived this led to wrong conclusions and
error reports.
---
 owlrl/OWLRL.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 77edc10..f922d0f 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -122,11 +122,17 @@ class OWLRL_Semantics(Core):
         @param l: RDFLib resource, should be the head of an rdf:List
         @return: array of resources
         """
-        try:
-            return [ch for ch in self.graph.items(l)]
-        except ValueError:
-            # the list is cyclic, ie, this is not a list at all
-            return []
+        members = []
+        cells = set()
+        while l != RDF.nil:
+            member, rest = self.graph.value(l, RDF.first), self.graph.value(l, RDF.rest)
+            if member is None or rest is None or l in cells:
+                # the list is incomplete or cyclic, ie, this is not a list at all
+                return []
+            members.append(member)
+            cells.add(l)
+            l = rest
+        return members
 
     def post_process(self):
         """
-- 
2.43.0


From d983f67876debd7a757eacd9815fcb4f58af1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 46/57] fix: owl:rational literals with more than one '/' are
 ill-typed (C23)

---
 owlrl/OWLRLExtras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index cd07a56..9c7aa8f 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -79,9 +79,11 @@ def _strToRational(v):
         if len(r) == 2:
             n_str = r[0]
             d_str = r[1]
-        else:
+        elif len(r) == 1:
             n_str = r[0]
             d_str = "1"
+        else:
+            raise ValueError("Invalid Rational literal value %s" % v)
         if d_str.strip()[0] == "+":
             raise ValueError("Invalid Rational literal value %s" % v)
         else:
-- 
2.43.0


From fb37d2453abe168b0bc4935996d959e07f582e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 47/57] fix: xsd:token values may contain white space
 characters other than the space

---
 owlrl/DatatypeHandling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 4d1630f..34990be 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -608,10 +608,9 @@ def _strToToken(v):
         return v
     # filter out the case when there are new lines and similar (if there is a problem, an exception is raised)
     _strToVal_Regexp(v, _re_token)
-    v1 = " ".join(v.strip().split())
-    # normalize the string, and see if the result is the same:
-    if len(v1) == len(v):
-        # no characters lost, ie, no unnecessary spaces
+    # only spaces matter, any other (Unicode) white space is like other characters
+    if v == v.strip(" ") and "  " not in v:
+        # no unnecessary spaces
         return v
     else:
         raise ValueError("Invalid literal %s" % v)
-- 
2.43.0


From d125ab265938117f1dfc0a884fa6d660cc8ffc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 48/57] fix: lists that end in a resource that is owl:sameAs
 rdf:nil are complete

---
 owlrl/OWLRL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f922d0f..b1c8b75 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -131,7 +131,8 @@ class OWLRL_Semantics(Core):
                 return []
             members.append(member)
             cells.add(l)
-            l = rest
+            # the end of the list may have other names, too
+            l = RDF.nil if (l, RDF.rest, RDF.nil) in self.graph else rest
         return members
 
     def post_process(self):
-- 
2.43.0


From a4fff446b41b304664fb5b9965cf69a39a4e7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 49/57] fix: AllDifferent, AllDisjointClasses and
 AllDisjointProperties look at all names of the list members

---
 owlrl/OWLRL.py | 94 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 36 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index b1c8b75..5c91748 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -31,6 +31,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import itertools
 from collections import defaultdict
 from typing import Union
 
@@ -135,6 +136,39 @@ class OWLRL_Semantics(Core):
             l = RDF.nil if (l, RDF.rest, RDF.nil) in self.graph else rest
         return members
 
+    def _list_positions(self, l):
+        """
+        Same as _list, but with all the resources that appear at a position of the list: due to sameAs, there may be
+        several members (or cells) there.
+
+        @param l: RDFLib resource, should be the head of an rdf:List
+        @return: array of sets of resources
+        """
+        positions = []
+        cells, visited = {l}, set()
+        while RDF.nil not in cells:
+            members = {m for c in cells for m in self.graph.objects(c, RDF.first)}
+            if not members or cells & visited:
+                return []
+            positions.append(members)
+            visited |= cells
+            cells = {r for c in cells for r in self.graph.objects(c, RDF.rest)}
+        return positions
+
+    def _list_pairs(self, l):
+        """
+        Pairs of resources that are at different positions of a list.
+
+        @param l: RDFLib resource, should be the head of an rdf:List
+        @return: set of pairs of resources; in a pair, the first resource precedes the second one in the list
+        """
+        return {
+            (m1, m2)
+            for ms1, ms2 in itertools.combinations(self._list_positions(l), 2)
+            for m1 in ms1
+            for m2 in ms2
+        }
+
     def post_process(self):
         """
         Remove triples with Bnode predicates. The Bnodes in the graph are collected in the first cycle run.
@@ -439,19 +473,15 @@ class OWLRL_Semantics(Core):
             m1 = [i for i in self.graph.objects(x, OWL.members)]
             m2 = [i for i in self.graph.objects(x, OWL.distinctMembers)]
             for y in m1 + m2:
-                zis = self._list(y)
-                for i in range(0, len(zis) - 1):
-                    zi = zis[i]
-                    for j in range(i + 1, len(zis)):
-                        zj = zis[j]
-                        if (
-                            (zi, OWL.sameAs, zj) in self.graph
-                            or (zj, OWL.sameAs, zi) in self.graph
-                        ) and zi != zj:
-                            self.add_error(
-                                "'sameAs' and 'AllDifferent' cannot be used on the same subject-object "
-                                "pair: (%s, %s)" % (zi, zj)
-                            )
+                for zi, zj in self._list_pairs(y):
+                    if (
+                        (zi, OWL.sameAs, zj) in self.graph
+                        or (zj, OWL.sameAs, zi) in self.graph
+                    ) and zi != zj:
+                        self.add_error(
+                            "'sameAs' and 'AllDifferent' cannot be used on the same subject-object "
+                            "pair: (%s, %s)" % (zi, zj)
+                        )
 
     def _properties(self, triple, cycle_num):
         """
@@ -535,18 +565,14 @@ class OWLRL_Semantics(Core):
             elif o == OWL.AllDisjointProperties:
                 x = p
                 for y in self.graph.objects(x, OWL.members):
-                    pis = self._list(y)
-                    for i in range(0, len(pis) - 1):
-                        pi = pis[i]
-                        for j in range(i + 1, len(pis)):
-                            pj = pis[j]
-                            for x, y in self.graph.subject_objects(pi):
-                                if (x, pj, y) in self.graph:
-                                    self.add_error(
-                                        "Disjoint properties in an 'AllDisjointProperties' are not really "
-                                        "disjoint: (%s, %s,%s) and (%s,%s,%s)"
-                                        % (x, pi, y, x, pj, y)
-                                    )
+                    for pi, pj in self._list_pairs(y):
+                        for x, y in self.graph.subject_objects(pi):
+                            if (x, pj, y) in self.graph:
+                                self.add_error(
+                                    "Disjoint properties in an 'AllDisjointProperties' are not really "
+                                    "disjoint: (%s, %s,%s) and (%s,%s,%s)"
+                                    % (x, pi, y, x, pj, y)
+                                )
 
         # RULE prp-spo1
         elif t == RDFS.subPropertyOf:
@@ -862,17 +888,13 @@ class OWLRL_Semantics(Core):
         elif p == RDF.type and c2 == OWL.AllDisjointClasses:
             x = c1
             for y in self.graph.objects(x, OWL.members):
-                classes = self._list(y)
-                if len(classes) > 0:
-                    for i in range(0, len(classes) - 1):
-                        cl1 = classes[i]
-                        for z in self.graph.subjects(RDF.type, cl1):
-                            for cl2 in classes[(i + 1) :]:
-                                if (z, RDF.type, cl2) in self.graph:
-                                    self.add_error(
-                                        "Disjoint classes %s and %s have a common individual %s"
-                                        % (cl1, cl2, z)
-                                    )
+                for cl1, cl2 in self._list_pairs(y):
+                    for z in self.graph.subjects(RDF.type, cl1):
+                        if (z, RDF.type, cl2) in self.graph:
+                            self.add_error(
+                                "Disjoint classes %s and %s have a common individual %s"
+                                % (cl1, cl2, z)
+                            )
 
     def _datatypes(self, triple, cycle_num):
         """
-- 
2.43.0


From 6094a1a5e9a2f62e14e5952c83bb0f3fb825b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 50/57] fix: length, pattern and language range facets are not
 accessible

RDFLib's RDF namespace does not define rdf:langRange, hence the facets checked after it raised an AttributeError
---
 owlrl/RestrictedDatatype.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 728d93d..2bee05b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -57,11 +57,14 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
-from rdflib import Literal as rdflibLiteral
+from rdflib import Literal as rdflibLiteral, URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# The RDF namespace of RDFLib does not include this term
+RDF_langRange = URIRef(str(RDF) + "langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -383,7 +386,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 # if there are several of these, all of them must hold
-- 
2.43.0


From 33aa2715d36f2bcac6d3eda2fca7443a3dcdc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 51/57] fix: repeated facet bounds that cannot be compared

---
 owlrl/RestrictedDatatype.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 2bee05b..34accc3 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -369,21 +369,22 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         self.minLength = None
         self.pattern = []
         self.langRange = []
+        self._empty = False
         for (facet, value) in facets:
             if facet == XSD.minInclusive and (
-                self.minInclusive is None or self.minInclusive < value
+                self.minInclusive is None or self._below(self.minInclusive, value)
             ):
                 self.minInclusive = value
             elif facet == XSD.minExclusive and (
-                self.minExclusive is None or self.minExclusive < value
+                self.minExclusive is None or self._below(self.minExclusive, value)
             ):
                 self.minExclusive = value
             elif facet == XSD.maxInclusive and (
-                self.maxInclusive is None or value < self.maxInclusive
+                self.maxInclusive is None or self._below(value, self.maxInclusive)
             ):
                 self.maxInclusive = value
             elif facet == XSD.maxExclusive and (
-                self.maxExclusive is None or value < self.maxExclusive
+                self.maxExclusive is None or self._below(value, self.maxExclusive)
             ):
                 self.maxExclusive = value
             elif facet == RDF_langRange:
@@ -440,6 +441,18 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 break
         self.toPython = lambda v: _lit_to_value(self, v)
 
+    def _below(self, bound1, bound2):
+        """
+        Compare two bounds of the same kind. If this is not possible (e.g., only one of them has a time zone), no value
+        can be compared with both of them, i.e., the datatype has no values.
+        @rtype: boolean
+        """
+        try:
+            return bound1 < bound2
+        except (TypeError, ArithmeticError):
+            self._empty = True
+            return False
+
     def checkValue(self, value):
         """
         Check whether the (Python) value abides to the constraints defined by the current facets.
@@ -447,6 +460,8 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         :param value: The value to be checked.
         :rtype: bool
         """
+        if self._empty:
+            return False
         try:
             for method in self.check_methods:
                 if not method(self, value):
-- 
2.43.0


From 85ed5bfa9242121f1be02b5f4011bb8b6e41b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 52/57] fix: facet checks use the conversion of the literal's
 datatype

---
 owlrl/OWLRLExtras.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 9c7aa8f..ba46bbb 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -156,6 +156,16 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 subsumption_list=[dt.base_type],
             )
 
+    @staticmethod
+    def _literal_value(lt):
+        """
+        The Python value of a literal as the facet checks expect it: the conversion of its datatype decides (rather than
+        L{toPython}, which returns the literal itself when its form is not valid or its datatype is not known to RDFLib).
+        :raise ValueError: the literal is not valid.
+        """
+        converter = AltXSDToPYTHON.get(lt.datatype)
+        return lt.toPython() if converter is None else converter(str(lt))
+
     # noinspection PyShadowingNames
     def _subsume_restricted_datatypes(self):
         """
@@ -176,7 +186,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
+                        if rt.checkValue(self._literal_value(lt)):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
@@ -204,7 +214,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if rt.datatype == t:
                     # bingo
                     if isinstance(v, rdflib.Literal):
-                        return rt.checkValue(v.toPython())
+                        return rt.checkValue(self._literal_value(v))
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 505afede01890a87bdb00dd543d555abf361759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:03 +0000
Subject: [PATCH 53/57] fix: a separate destination is looked at for container
 properties and restricted datatypes, too

---
 owlrl/Closure.py     | 16 ++++++++--------
 owlrl/OWLRLExtras.py |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 721fbea..cd7fa30 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -114,14 +114,6 @@ class Core:
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        maxnum = 0
-        for predicate in set(graph.predicates()):
-            match = re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", predicate)
-            if match is not None:
-                maxnum = max(maxnum, int(match.group(1)))
-        self.IMaxNum = maxnum
-
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
@@ -143,6 +135,14 @@ class Core:
                     # the rules must see what has been inferred already
                     self.graph = ReadOnlyGraphAggregate([graph, destination])
 
+        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
+        maxnum = 0
+        for predicate in set(self.graph.predicates()):
+            match = re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", predicate)
+            if match is not None:
+                maxnum = max(maxnum, int(match.group(1)))
+        self.IMaxNum = maxnum
+
         self.axioms = axioms
         self.daxioms = daxioms
 
diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index ba46bbb..2f9ee90 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -145,7 +145,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             subsumption_list=[OWL.rational],
         )
 
-        self.restricted_datatypes = extract_faceted_datatypes(self, graph)
+        self.restricted_datatypes = extract_faceted_datatypes(self, self.graph)
         for dt in self.restricted_datatypes:
             self.add_new_datatype(
                 dt.datatype,
-- 
2.43.0


From c402419dae1bbc0efdcb7f0a1fbdcfecbf7107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:04 +0000
Subject: [PATCH 54/57] fix: RDFS closure: values that cannot be compared
 (signalling NaN) do not abort the expansion

---
 owlrl/RDFSClosure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 00bbbf0..ca08307 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -123,7 +123,11 @@ class RDFS_Semantics(Core):
         ):
             return False
         if lt1.value is not None and lt2.value is not None:
-            return lt1.value == lt2.value
+            try:
+                return lt1.value == lt2.value
+            except ArithmeticError:
+                # not comparable, e.g. RDFLib's value of "sNaN"^^xsd:decimal
+                return False
         elif lt1.datatype is not None and lt2.datatype is not None:
             return lt1.__eq__(lt2)
         return False
-- 
2.43.0


From bff28ee519a29958fe6be50289c47cbe9ae29787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:16 +0000
Subject: [PATCH 55/57] fix: the error page of the CGI service does not crash
 (cgi.escape does not exist any more)

---
 scripts/RDFConvertService | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 1e6ca66..858e1c0 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -17,6 +17,7 @@ import os
 import sys
 import cgi
 import cgitb
+import html
 # prevent accidentally importing `scripts/owlrl` file when calling
 # `from owlrl import ...` below.
 HERE_DIR = os.path.abspath(os.path.dirname(__file__))
@@ -97,9 +98,9 @@ class Options:
         if len(self.sources) == 0:
             print("none")
         elif len(self.sources) == 1:
-            print(cgi.escape(self.sources[0]))
+            print(html.escape(self.sources[0]))
         else:
-            print(cgi.escape(self.sources[0]), ", ", cgi.escape(self.sources[1]))
+            print(html.escape(self.sources[0]), ", ", html.escape(self.sources[1]))
         print('</dd>')
         
         print('<dt>Input format:</dt>')
@@ -114,7 +115,7 @@ class Options:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
         if self.text is not None:
-            print(cgi.escape(self.text).replace('\n', '<br/>'))
+            print(html.escape(self.text).replace('\n', '<br/>'))
 
 # ---------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 8c689624c9a431965f94bc5eb36039389c03776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:16 +0000
Subject: [PATCH 56/57] fix: the error page of the CGI service escapes the
 error message and the options

---
 scripts/RDFConvertService | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 858e1c0..c158c16 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -104,13 +104,13 @@ class Options:
         print('</dd>')
         
         print('<dt>Input format:</dt>')
-        print('<dd>%s</dd>' % self.iformat)
-        print('<dt>Output format:</dt><dd>%s</dd>' % self.format)
-        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % self.owlClosure)
-        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % self.rdfsClosure)
-        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % self.owlExtras)
-        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % self.axioms)
-        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % self.daxioms)
+        print('<dd>%s</dd>' % html.escape(self.iformat))
+        print('<dt>Output format:</dt><dd>%s</dd>' % html.escape(self.format))
+        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % html.escape(self.owlClosure))
+        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % html.escape(self.rdfsClosure))
+        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % html.escape(self.owlExtras))
+        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.axioms))
+        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.daxioms))
         if self.text is not None:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
@@ -140,7 +140,7 @@ except:
     print("<title>Error in RDF Closure processing</title>")
     print("</head><body>")
     print("<h1>Error in RDF Closure processing:</h1>")
-    print("<pre>%s</pre>" % value)
+    print("<pre>%s</pre>" % html.escape(str(value)))
     print("<h1>For reference, the input arguments were:</h1>")
     options.to_html()
     print("</body>")
-- 
2.43.0


From 75c554f141d73a29b71cc5afa9d500d088c5a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:16 +0000
Subject: [PATCH 57/57] fix: the CGI service declares the format it replies in

---
 scripts/RDFConvertService | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index c158c16..4478104 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -35,7 +35,7 @@ if 'owlrl' in parent_dir_list:
 __version__ = "4.0"
 cgitb.enable()
 form = cgi.FieldStorage()
-from owlrl import convert_graph, RDFXML, TURTLE, AUTO
+from owlrl import convert_graph, RDFXML, TURTLE, JSON, AUTO
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -124,10 +124,12 @@ options = Options(form)
 
 try:
     retval = convert_graph(options)
-    if options.format == TURTLE:
-        print('Content-Type: text/turtle; charset=utf-8')
-    else:
+    if options.format in (RDFXML, "rdfxml"):
         print('Content-Type: application/rdf+xml; charset=utf-8')
+    elif options.format == JSON:
+        print('Content-Type: application/ld+json; charset=utf-8')
+    else:
+        print('Content-Type: text/turtle; charset=utf-8')
     print()
     print(retval)
 except:
-- 
2.43.0

