From 3e3ff0748cd1f92aa0f16e689bdc3c59a7f80958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 01/76] fix: enforce every restriction of a restricted type on
 every value

A value was accepted when any one of a type's restrictions passed, the
restrictions of a derived type replaced each other, and a value that the
underlying type refused with TypeError (None, False, 1.5, a non-numeric
string) was stored as that type's null value.
---
 pyangbind/lib/yangtypes.py | 40 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7e67e27..bd7dc92 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -305,11 +305,6 @@ def RestrictedClassType(*args, **kwargs):
             def in_dictionary_check(dictionary):
                 return lambda i: str(i) in dictionary
 
-            val = False
-            try:
-                val = args[0]
-            except IndexError:
-                pass
             if self._restriction_dict is None:
                 if restriction_type is not None and restriction_arg is not None:
                     self._restriction_dict = {restriction_type: restriction_arg}
@@ -324,11 +319,6 @@ def RestrictedClassType(*args, **kwargs):
                     for range_spec in rarg:
                         ranges.append(build_length_range_tuples(range_spec))
                     self._restriction_tests.append(in_range_check(ranges))
-                    if val:
-                        try:
-                            val = base_type(val)
-                        except Exception:
-                            raise TypeError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
                     multiplier = 1
                     lengths = []
@@ -357,20 +347,20 @@ def RestrictedClassType(*args, **kwargs):
                 else:
                     raise TypeError("unsupported restriction type")
 
-            if val is not False:
+            # Every restriction applies, and the enclosed base_type (which may
+            # itself be a restricted class) checks its own when it is created.
+            if len(args):
+                try:
+                    val = base_type(args[0])
+                except (TypeError, ArithmeticError):
+                    raise ValueError("%s is not a valid value for a restricted type" % str(args[0]))
+                if issubclass(base_type, int) and isinstance(args[0], (float, Decimal)) and val != args[0]:
+                    raise ValueError("%s is not an integer" % args[0])
                 for test in self._restriction_tests:
-                    passed = False
-                    if test(val) is not False:
-                        passed = True
-                        break
-                if not passed:
-                    raise ValueError("%s does not match a restricted type" % val)
+                    if not test(val):
+                        raise ValueError("%s does not match a restricted type" % str(args[0]))
 
-            try:
-                obj = base_type.__new__(self, *args, **kwargs)
-            except TypeError:
-                obj = base_type.__new__(self)
-            return obj
+            return base_type.__new__(self, *args, **kwargs)
 
         def __check(self, v):
             """
@@ -1021,10 +1011,10 @@ def YANGDynClass(*args, **kwargs):
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
 
         def __new__(self, *args, **kwargs):
-            try:
-                obj = base_type.__new__(self, *args, **kwargs)
-            except TypeError:
+            if base_type.__new__ is object.__new__:
                 obj = base_type.__new__(self)
+            else:
+                obj = base_type.__new__(self, *args, **kwargs)
             return obj
 
         def __init__(self, *args, **kwargs):
-- 
2.43.0


From 29e16c00ece43bcb585e7eefe800d71bae286dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 02/76] fix: anchor a pattern as a whole

A pattern with top-level alternation (a|b) accepted values that only began
or ended with one of its branches, and a trailing newline was ignored.
---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index bd7dc92..d2f84db 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -296,7 +296,7 @@ def RestrictedClassType(*args, **kwargs):
 
             def match_pattern_check(regexp):
                 def mp_check(value):
-                    if regex.match(convert_regexp(regexp), str(value)):
+                    if regex.fullmatch(convert_regexp(regexp), str(value)):
                         return True
                     return False
 
-- 
2.43.0


From 9c1315c63b4703581331da80f8da414d7b79adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 03/76] fix: enforce all the pattern statements of a type, not
 only the first

---
 pyangbind/lib/yangtypes.py | 3 ++-
 pyangbind/plugin/pybind.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d2f84db..4197bf9 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -313,7 +313,8 @@ def RestrictedClassType(*args, **kwargs):
 
             for rtype, rarg in self._restriction_dict.items():
                 if rtype == "pattern":
-                    self._restriction_tests.append(match_pattern_check(rarg))
+                    for pattern in [rarg] if isinstance(rarg, str) else rarg:
+                        self._restriction_tests.append(match_pattern_check(pattern))
                 elif rtype == "range":
                     ranges = []
                     for range_spec in rarg:
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f4606e7..f895dc7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1232,7 +1232,9 @@ def build_elemtype(ctx, et, prefix=False):
     # type.
     restrictions = {}
     if pattern_stmt:
-        restrictions["pattern"] = pattern_stmt.arg
+        # All of the pattern statements of a type must match
+        patterns = [i.arg for i in et.search("pattern")]
+        restrictions["pattern"] = patterns[0] if len(patterns) == 1 else patterns
 
     if length_stmt:
         if "|" in length_stmt.arg:
-- 
2.43.0


From eabef1b91697a70d1ddaf2c555052aaf8c9e111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 04/76] fix: compare single-value ranges exactly

The value was converted to float, so that a 64-bit integer could match a
neighbouring value of the range and not its own.
---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4197bf9..cd6c308 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -285,7 +285,7 @@ def RestrictedClassType(*args, **kwargs):
                             if check_tuple[1] is not None and value > check_tuple[1]:
                                 chk = False
                         elif len(check_tuple) == 1:
-                            if value != float(check_tuple[0]):
+                            if value != check_tuple[0]:
                                 chk = False
                         else:
                             raise AttributeError("Invalid check tuple length specified")
-- 
2.43.0


From a6de9a94abaf97a581f202d7a8c145ef75f1e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 05/76] fix: keep fraction-digits on a decimal64 that also has
 a range

---
 pyangbind/plugin/pybind.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f895dc7..cd491d9 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1252,11 +1252,14 @@ def build_elemtype(ctx, et, prefix=False):
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
     if len(restrictions):
+        base_native_type = class_map[et.arg]["native_type"]
+        if et.search_one("fraction-digits") is not None:
+            base_native_type = "RestrictedPrecisionDecimalType(precision=%s)" % et.search_one("fraction-digits").arg
         if "length" in restrictions or "pattern" in restrictions:
             cls = "restricted-%s" % (et.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (base_native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
                 "parent_type": et.arg,
                 "base_type": False,
@@ -1265,7 +1268,7 @@ def build_elemtype(ctx, et, prefix=False):
             cls = "restricted-%s" % et.arg
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (base_native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
                 "parent_type": et.arg,
                 "base_type": False,
-- 
2.43.0


From bcf9cfbb7ded4751c045e779ce6bb5c4375a11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 06/76] fix: number enum members without a value as RFC 7950
 does

A member without a value statement is one more than the highest value so
far, not the lowest number that no member uses.
---
 pyangbind/lib/yangtypes.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index cd6c308..8176f47 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -332,17 +332,13 @@ def RestrictedClassType(*args, **kwargs):
                         if k.startswith("@"):
                             new_rarg.pop(k, None)
                     # populate enum values
-                    used_values = []
+                    # RFC 7950 9.6.4.2 - one more than the highest value so far
+                    highest = None
                     for k in new_rarg:
-                        if "value" in new_rarg[k]:
-                            used_values.append(int(new_rarg[k]["value"]))
-                    c = 0
-                    for k in new_rarg:
-                        while c in used_values:
-                            c += 1
                         if "value" not in new_rarg[k]:
-                            new_rarg[k]["value"] = c
-                        c += 1
+                            new_rarg[k]["value"] = 0 if highest is None else highest + 1
+                        if highest is None or int(new_rarg[k]["value"]) > highest:
+                            highest = int(new_rarg[k]["value"])
                     self._restriction_tests.append(in_dictionary_check(new_rarg))
                     self._enumeration_dict = new_rarg
                 else:
-- 
2.43.0


From 5e496b03f1b0697fabc05a087eba07028f3818e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 07/76] fix: refuse values outside decimal64 with ValueError

NaN and numbers beyond the 64-bit value space were stored, and a string that
is not a number leaked decimal.InvalidOperation from the setter.
---
 pyangbind/lib/yangtypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8176f47..d91d95f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -155,7 +155,12 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             """
             if self._precision is not None:
                 if len(args):
-                    value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    try:
+                        value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    except ArithmeticError:
+                        raise ValueError("%s is not a valid decimal64 value" % args[0])
+                    if not value.is_finite() or not -(2**63) <= value.scaleb(int(precision)) < 2**63:
+                        raise ValueError("%s is not in the value space of decimal64" % args[0])
                 else:
                     value = Decimal(0)
             elif len(args):
-- 
2.43.0


From 0319d4c5aa1fbd25fd9ab6a735076fd04a822273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 08/76] fix: treat bit positions as numbers and assign the
 missing ones

Positions were compared as strings, so that position 10 was ordered before
2, and a bits type without position statements could not be generated.
---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index cd491d9..c93c2c7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1362,9 +1362,9 @@ def build_elemtype(ctx, et, prefix=False):
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
-                    pos = position.arg
+                    pos = int(position.arg)
                 else:
-                    pos = 1 + max(allowed_bits)
+                    pos = 1 + max(allowed_bits.values(), default=-1)
                 allowed_bits[bit.arg] = pos
             cls = "restricted-bits"
             elemtype = {
-- 
2.43.0


From d9801966f53dcff95a5c24cd518a8367697feb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 09/76] fix: check leaf-list uniqueness on values, not on the
 form they are given in

An integer leaf-list accepted 5 and "5" as two different members.
---
 pyangbind/lib/yangtypes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d91d95f..d7056b8 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -411,18 +411,15 @@ def TypedListType(*args, **kwargs):
                 if isinstance(args[0], list):
                     tmp = []
                     for i in args[0]:
-                        if not self._unique or i not in tmp:
-                            tmp.append(self.check(i))
+                        val = self.check(i)
+                        if not self._unique or val not in tmp:
+                            tmp.append(val)
                     self._list.extend(tmp)
                 else:
                     tmp = self.check(args[0])
                     self._list.append(tmp)
 
         def check(self, v):
-            # Short circuit uniqueness check
-            if self._unique and v in self._list:
-                raise ValueError("Values in this list must be unique.")
-
             passed = False
             count = 0
             for i in self._allowed_type:
@@ -482,11 +479,14 @@ def TypedListType(*args, **kwargs):
 
         def insert(self, i, v):
             val = self.check(v)
+            # Uniqueness is of the values, rather than of the form they are given in
+            if self._unique and val in self._list:
+                raise ValueError("Values in this list must be unique.")
             self._list.insert(i, val)
 
         def append(self, v):
-            if not self._unique or v not in self._list:
-                val = self.check(v)
+            val = self.check(v)
+            if not self._unique or val not in self._list:
                 self._list.append(val)
 
         def __str__(self):
-- 
2.43.0


From d27318e0a599b244fc1c07cd0fd5beeca9fd57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 10/76] fix: allow values to be added to a leaf-list of bits

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d7056b8..9b8a9ab 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -438,7 +438,7 @@ def TypedListType(*args, **kwargs):
                             tmp = i(v)
                             passed = True
                             break
-                        elif attr == "RestrictedPrecisionDecimal":
+                        elif attr in ("RestrictedPrecisionDecimal", "YANGBits"):
                             tmp = i(v)
                             passed = True
                             break
-- 
2.43.0


From 6d3f83356a4c3795e8a322a0eb25a47f7c8a9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 11/76] fix: serialise decimal64 in its canonical form

The IETF encodings wrote the trailing zeros that fraction-digits pads a
value with, and an exponent for small values (1E-7).
---
 pyangbind/lib/serialise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1d4d78..1135981 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -244,7 +244,10 @@ class IETFYangDataSerialiser(YangDataSerialiser):
         return str(obj)
 
     def yangt_decimal(self, obj):
-        return str(obj)
+        # the canonical form has no trailing zeros, but at least one digit
+        # on each side of the decimal point
+        val = format(obj.normalize(), "f")
+        return val if "." in val else val + ".0"
 
     def yangt_empty(self, obj):
         return [None] if obj else False
-- 
2.43.0


From 2afdb1bf0633b80b7fbb56e24229648e40553d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 12/76] fix: enforce a choice on the node that owns it

Setting a node told every ancestor about one choice only, so that the choice
around another choice, and any choice at the top level of a module, was not
enforced, and an ancestor with a choice of the same name lost its data.
---
 pyangbind/lib/yangtypes.py | 33 +++++++++++++++++----------------
 pyangbind/plugin/pybind.py |  3 +--
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 9b8a9ab..d1dcfb5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -530,6 +530,7 @@ def YANGListType(*args, **kwargs):
     is_container = kwargs.pop("is_container", False)
     parent = kwargs.pop("parent", False)
     yang_name = kwargs.pop("yang_name", False)
+    choice = kwargs.pop("choice", False)
     yang_keys = kwargs.pop("yang_keys", False)
     user_ordered = kwargs.pop("user_ordered", False)
     path_helper = kwargs.pop("path_helper", None)
@@ -679,6 +680,7 @@ def YANGListType(*args, **kwargs):
                             base=self._contained_class,
                             parent=parent,
                             yang_name=yang_name,
+                            choice=choice,
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
@@ -693,6 +695,7 @@ def YANGListType(*args, **kwargs):
                             base=self._contained_class,
                             parent=parent,
                             yang_name=yang_name,
+                            choice=choice,
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
@@ -718,6 +721,7 @@ def YANGListType(*args, **kwargs):
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
+                    choice=choice,
                     is_container=is_container,
                     path_helper=path_helper,
                     extmethods=self._parent._extmethods,
@@ -1100,21 +1104,18 @@ def YANGDynClass(*args, **kwargs):
         def __repr__(self):
             return super(YANGBaseClass, self).__repr__()
 
-        def _set(self, choice=False):
-            if hasattr(self, "__choices__") and choice:
-                for ch in self.__choices__:
-                    if ch == choice[0]:
-                        for case in self.__choices__[ch]:
-                            if not case == choice[1]:
-                                for elem in self.__choices__[ch][case]:
-                                    method = "_unset_%s" % elem
-                                    if not hasattr(self, method):
-                                        raise AttributeError("unmapped choice!")
-                                    x = getattr(self, method)
-                                    x()
-
-            if self._choice and not choice:
-                choice = self._choice
+        def _set(self):
+            # A choice is between children of the parent, whatever class that has
+            if self._choice:
+                cases = getattr(self._parent, "__choices__", {}).get(self._choice[0], {})
+                for case in cases:
+                    if not case == self._choice[1]:
+                        for elem in cases[case]:
+                            method = "_unset_%s" % elem
+                            if not hasattr(self._parent, method):
+                                raise AttributeError("unmapped choice!")
+                            x = getattr(self._parent, method)
+                            x()
 
             self._mchanged = True
 
@@ -1122,7 +1123,7 @@ def YANGDynClass(*args, **kwargs):
                 self._cpresent = True
 
             if self._parent and hasattr(self._parent, "_set"):
-                self._parent._set(choice=choice)
+                self._parent._set()
 
         def _add_metadata(self, k, v):
             self._metadata[k] = v
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index c93c2c7..b14598a 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -913,7 +913,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["arg"] += ", yang_keys='%s'" % i["yang_keys"]
                 class_str["arg"] += ", extensions=%s" % i["extensions"]
                 if i["choice"]:
-                    class_str["arg"] += ", choice=%s" % repr(choice)
+                    class_str["arg"] += ", choice=%s" % repr(i["choice"])
                 class_str["arg"] += ")"
             elif i["class"] == "union" or i["class"] == "leaf-union":
                 # A special mapped type where there is a union that just includes
@@ -1497,7 +1497,6 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 element,
                 npath,
                 parent_cfg=parent_cfg,
-                choice=choice,
                 register_paths=register_paths,
             )
 
-- 
2.43.0


From 89481557017a900d1ce7e505a887d33c0b1f223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 13/76] fix: enforce a choice that is a case of another choice

---
 pyangbind/lib/yangtypes.py |  9 ++++++---
 pyangbind/plugin/pybind.py | 17 +++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d1dcfb5..a664986 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1106,16 +1106,19 @@ def YANGDynClass(*args, **kwargs):
 
         def _set(self):
             # A choice is between children of the parent, whatever class that has
-            if self._choice:
-                cases = getattr(self._parent, "__choices__", {}).get(self._choice[0], {})
+            # and a case of it may be another choice, around this one.
+            choice = self._choice
+            while choice:
+                cases = getattr(self._parent, "__choices__", {}).get(choice[0], {})
                 for case in cases:
-                    if not case == self._choice[1]:
+                    if not case == choice[1]:
                         for elem in cases[case]:
                             method = "_unset_%s" % elem
                             if not hasattr(self._parent, method):
                                 raise AttributeError("unmapped choice!")
                             x = getattr(self._parent, method)
                             x()
+                choice = choice[2] if len(choice) > 2 else False
 
             self._mchanged = True
 
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b14598a..8c065ae 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -662,6 +662,8 @@ def get_children_elements(
     # a list of i_children.
     # It treats 'choice' children, which have elements in its cases.
     # It extends the list of elements and imports as childs are inspected.
+    # The choice handed down is (choice, case), followed by the choice that this
+    # one is a case of, if any.
 
     for ch in i_children:
         if ch.keyword == "choice":
@@ -677,7 +679,7 @@ def get_children_elements(
                     imports,
                     path=path,
                     parent_cfg=parent_cfg,
-                    choice=(ch.arg, sub_choice_ch.arg),
+                    choice=(ch.arg, sub_choice_ch.arg) + ((choice,) if choice else ()),
                     register_paths=register_paths,
                 )
         else:
@@ -985,11 +987,14 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 if i["choice"]:
                     class_str["arg"] += ", choice=%s" % repr(i["choice"])
                     choice_attrs.append(i["name"])
-                    if not i["choice"][0] in choices:
-                        choices[i["choice"][0]] = {}
-                    if not i["choice"][1] in choices[i["choice"][0]]:
-                        choices[i["choice"][0]][i["choice"][1]] = []
-                    choices[i["choice"][0]][i["choice"][1]].append(i["name"])
+                    ch = i["choice"]
+                    while ch:
+                        if not ch[0] in choices:
+                            choices[ch[0]] = {}
+                        if not ch[1] in choices[ch[0]]:
+                            choices[ch[0]][ch[1]] = []
+                        choices[ch[0]][ch[1]].append(i["name"])
+                        ch = ch[2] if len(ch) > 2 else False
                 class_str["arg"] += ", path_helper=self._path_helper"
                 class_str["arg"] += ", extmethods=self._extmethods"
                 class_str["arg"] += ", register_paths=%s" % i["register_paths"]
-- 
2.43.0


From f9a4a132743ff7be62c0643dbae6d6dac86e6392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 14/76] fix: validate a value before it has any effect on the
 tree

Setting a leaf-list, bits or leafref to an invalid value, or adding one to a
leaf-list, raised ValueError after the parents were marked as changed, the
other cases of a choice were removed and the rejected object had replaced
the registered one.
---
 pyangbind/lib/yangtypes.py | 48 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index a664986..8d45ad6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1060,19 +1060,10 @@ def YANGDynClass(*args, **kwargs):
 
             if default:
                 self._default = default
-            if len(args):
-                self._set()
 
-            # lists themselves do not register, only elements within them
-            # are actually created in the tree.
-            if not self._is_container == "list":
-                if self._path_helper:
-                    if self._supplied_register_path is None:
-                        if self._register_paths:
-                            self._path_helper.register(self._register_path(), self)
-                    else:
-                        if self._register_paths:
-                            self._path_helper.register(self._supplied_register_path, self)
+            # A container must be registered before the nodes within it.
+            if self._is_container == "container":
+                self.__register()
 
             if self._is_container == "list" or self._is_container == "container":
                 kwargs["path_helper"] = self._path_helper
@@ -1086,6 +1077,25 @@ def YANGDynClass(*args, **kwargs):
             except Exception:
                 raise
 
+            # The value is known to be valid only now, so that nothing else in
+            # the tree changes for one that is not.
+            if not self._is_container == "container":
+                self.__register()
+            if len(args):
+                self._set()
+
+        def __register(self):
+            # lists themselves do not register, only elements within them
+            # are actually created in the tree.
+            if not self._is_container == "list":
+                if self._path_helper:
+                    if self._supplied_register_path is None:
+                        if self._register_paths:
+                            self._path_helper.register(self._register_path(), self)
+                    else:
+                        if self._register_paths:
+                            self._path_helper.register(self._supplied_register_path, self)
+
         def _changed(self):
             return self._mchanged
 
@@ -1139,42 +1149,42 @@ def YANGDynClass(*args, **kwargs):
 
         # we need to overload the set methods
         def __setitem__(self, *args, **kwargs):
-            self._set()
             super(YANGBaseClass, self).__setitem__(*args, **kwargs)
+            self._set()
 
         def append(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "append"):
                 raise AttributeError("%s object has no attribute append" % base_type)
-            self._set()
             super(YANGBaseClass, self).append(*args, **kwargs)
+            self._set()
 
         def pop(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "pop"):
                 raise AttributeError("%s object has no attribute pop" % base_type)
-            self._set()
             item = super(YANGBaseClass, self).pop(*args, **kwargs)
+            self._set()
             return item
 
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            self._set()
             if self._path_helper:
                 elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
                 super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
+            self._set()
 
         def extend(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "extend"):
                 raise AttributeError("%s object has no attribute extend" % base_type)
-            self._set()
             super(YANGBaseClass, self).extend(*args, **kwargs)
+            self._set()
 
         def insert(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "insert"):
                 raise AttributeError("%s object has no attribute insert" % base_type)
-            self._set()
             super(YANGBaseClass, self).insert(*args, **kwargs)
+            self._set()
 
         def _register_path(self):
             if self._supplied_register_path is not None:
@@ -1252,8 +1262,6 @@ def ReferenceType(*args, **kwargs):
 
             if len(args):
                 value = args[0]
-                if hasattr(self, "_set"):
-                    self._set()
             else:
                 value = None
 
-- 
2.43.0


From a1817a936c4f078961eb2cd70f2340c3aa136380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 15/76] fix: keep the tree informed of changes made to a bits
 value in place

add() and the like marked only the leaf as changed, so that its parents were
left out of filtered output, remove() failed with a path helper, pop()
returned nothing and a bits value could not be set from another.
---
 pyangbind/lib/yangtypes.py | 40 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8d45ad6..3ae19a0 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1168,9 +1168,6 @@ def YANGDynClass(*args, **kwargs):
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            if self._path_helper:
-                elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
-                super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
             self._set()
 
@@ -1411,8 +1408,22 @@ def YANGBitsType(allowed_bits):
 
             if args:
                 value = args[0]
-                for bit in value.split():
-                    self.add(bit)
+                if isinstance(value, str):
+                    value = value.split()
+                elif not isinstance(value, (abc.Set, list, tuple)):
+                    raise ValueError(f"{value} is not a set of bits")
+                for bit in value:
+                    self._check(bit)
+                    super().add(bit)
+
+        def _check(self, bit):
+            if bit not in self._allowed_bits:
+                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+
+        def _modified(self):
+            # A value within a leaf-list is not a node of the tree
+            if hasattr(self, "_set"):
+                self._set()
 
         def _add_bit_definition(self, bit, position):
             self._allowed_bits[bit] = position
@@ -1420,28 +1431,27 @@ def YANGBitsType(allowed_bits):
         # overwrite set methods to 1/ check for legal values and 2/ set the
         # changed flag
         def add(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check(bit)
             super().add(bit)
-            self._mchanged = True
+            self._modified()
 
         def clear(self):
             super().clear()
-            self._mchanged = True
+            self._modified()
 
         def discard(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check(bit)
             super().discard(bit)
-            self._mchanged = True
+            self._modified()
 
         def pop(self):
-            super().pop()
-            self._mchanged = True
+            bit = super().pop()
+            self._modified()
+            return bit
 
         def remove(self, bit):
             super().remove(bit)
-            self._mchanged = True
+            self._modified()
 
         def __str__(self, encoding="ascii", errors="replace"):
             """Return bits as shown in JSON."""
-- 
2.43.0


From baa8e89a62117401bb4a85ff60a409daf95d3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 16/76] fix: allow a leaf-list to be set from another leaf-list

Copying a container or list entry failed when a leaf-list within it had values.
---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3ae19a0..6c20b6e 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -408,7 +408,7 @@ def TypedListType(*args, **kwargs):
             self._allowed_type = allowed_type
             self._list = list()
             if len(args):
-                if isinstance(args[0], list):
+                if isinstance(args[0], (list, abc.MutableSequence)):
                     tmp = []
                     for i in args[0]:
                         val = self.check(i)
-- 
2.43.0


From 8371c40ab4bdda35269c665788e4f53d74b7fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 17/76] fix: leave nothing behind when a list entry cannot be
 added

An entry whose key is not valid stayed registered with the path helper, and
marked the list's parents as changed once one of its keys was valid.
---
 pyangbind/lib/yangtypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6c20b6e..2a1d868 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -675,6 +675,11 @@ def YANGListType(*args, **kwargs):
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
+                    # Check the keys before the tree knows of the new entry
+                    tmp._parent = None
+                    for kn in keydict:
+                        getattr(tmp, "_set_%s" % safe_name(kn))(keydict[kn], load=True)
+
                     if not update:
                         tmp = YANGDynClass(
                             base=self._contained_class,
@@ -715,6 +720,8 @@ def YANGListType(*args, **kwargs):
                     self._members[k] = tmp
 
                 except ValueError as m:
+                    if self._path_helper and k not in self._members and tmp._parent is not None:
+                        self._path_helper.unregister(tmp._path())
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
                 self._members[k] = YANGDynClass(
-- 
2.43.0


From 761eb0a7277dc3791f6b3a93d63b29cb1c44f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 18/76] fix: copy the lists within a container or list entry
 that is copied

Assigning a container, or appending a list entry, silently dropped the
entries of every list below it, and the values of a keyless entry.
---
 pyangbind/lib/yangtypes.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 2a1d868..3b5ef77 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -553,6 +553,12 @@ def YANGListType(*args, **kwargs):
             self._path_helper = path_helper
             self._yang_keys = yang_keys
 
+            if len(args):
+                if not is_yang_list(args[0]) or is_yang_leaflist(args[0]):
+                    raise ValueError("value must be a list of %s" % self._contained_class)
+                for entry in args[0].itervalues():
+                    self.append(entry)
+
         def __str__(self):
             return str(self._members)
 
@@ -718,6 +724,8 @@ def YANGListType(*args, **kwargs):
                         k = k._referenced_object
 
                     self._members[k] = tmp
+                    # the list itself has been modified, as well as the entry
+                    self._set()
 
                 except ValueError as m:
                     if self._path_helper and k not in self._members and tmp._parent is not None:
@@ -725,6 +733,7 @@ def YANGListType(*args, **kwargs):
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
                 self._members[k] = YANGDynClass(
+                    *([] if v is None else [v]),
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
@@ -734,6 +743,7 @@ def YANGListType(*args, **kwargs):
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                 )
+                self._set()
                 return k
 
         def __delitem__(self, k):
@@ -788,7 +798,13 @@ def YANGListType(*args, **kwargs):
                 return kv()
 
         def append(self, obj):
-            self.__set(_k=self._extract_key(obj), _v=obj)
+            if not self._keyval:
+                self.__set(_v=obj)
+            elif " " in self._keyval:
+                keys = {k: getattr(obj, "_get_%s" % safe_name(k))() for k in self._keyval.split(" ")}
+                self.__set(_python_key=self._extract_key(obj), _v=obj, _named_set=True, **keys)
+            else:
+                self.__set(_k=self._extract_key(obj), _v=obj)
 
         def _new_item(self):
             return self._contained_class()
@@ -871,7 +887,7 @@ def YANGListType(*args, **kwargs):
                     d[i] = self._members[i]
             return d
 
-    return type(YANGList(*args, **kwargs))
+    return type(YANGList())
 
 
 class YANGBool(int):
-- 
2.43.0


From 33e3f6c10a4a1663e19491b085ede196f7d12281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 19/76] fix: identify list entries by the value of their key

An entry could be added twice, and was not found, when its key was given in
another form (1 and "1"): loading JSON into a list with integer keys
duplicated the entries that it already had.
---
 pyangbind/lib/yangtypes.py | 41 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3b5ef77..eb43925 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -537,7 +537,7 @@ def YANGListType(*args, **kwargs):
     extensions = kwargs.pop("extensions", None)
 
     class YANGList(object):
-        __slots__ = ("_members", "_keyval", "_contained_class", "_path_helper", "_yang_keys", "_ordered")
+        __slots__ = ("_members", "_keyval", "_contained_class", "_path_helper", "_yang_keys", "_ordered", "_key_index")
         _pybind_generated_by = "YANGListType"
 
         def __init__(self, *args, **kwargs):
@@ -546,6 +546,10 @@ def YANGListType(*args, **kwargs):
 
             self._members._user_ordered = True if user_ordered else False
 
+            # The key of each member, by the value of the entry's key leaves, since
+            # that value may be given in more than one form (e.g. 1 and "1").
+            self._key_index = {}
+
             self._keyval = keyname
             if not type(listclass) == type(int):
                 raise ValueError("contained class of a YANGList must be a class")
@@ -599,7 +603,7 @@ def YANGListType(*args, **kwargs):
             elif " " in self._keyval:
                 raise AttributeError("Multiple key, string type should be used")
             else:
-                member = self._members[k]
+                member = self[k]
                 getfn = getattr(member, "_get_%s" % self._keyval)
                 return getfn()
 
@@ -607,12 +611,23 @@ def YANGListType(*args, **kwargs):
             return iter(self._members)
 
         def __contains__(self, k):
-            if k in self._members:
+            if self._member_key(k) in self._members:
                 return True
             return False
 
         def __getitem__(self, k):
-            return self._members[k]
+            return self._members[self._member_key(k)]
+
+        def _member_key(self, k):
+            """
+            Return the key that the entry referred to by k is stored with.
+            """
+            if k in self._members:
+                return k
+            return self._key_index.get(str(k), k)
+
+        def _index_key(self, entry):
+            return " ".join(str(getattr(entry, "_get_%s" % safe_name(i))()) for i in self._keyval.split(" "))
 
         def __setitem__(self, k, v):
             self.__set(_k=k, _v=v)
@@ -637,6 +652,7 @@ def YANGListType(*args, **kwargs):
                 else:
                     update = True
 
+            k = self._member_key(k)
             if k in self._members:
                 update = True
 
@@ -685,6 +701,10 @@ def YANGListType(*args, **kwargs):
                     tmp._parent = None
                     for kn in keydict:
                         getattr(tmp, "_set_%s" % safe_name(kn))(keydict[kn], load=True)
+                    if self._key_index.get(self._index_key(tmp), k) != k:
+                        k = self._key_index[self._index_key(tmp)]
+                        if v is None:
+                            raise KeyError("%s is already defined as a list entry" % k)
 
                     if not update:
                         tmp = YANGDynClass(
@@ -724,6 +744,7 @@ def YANGListType(*args, **kwargs):
                         k = k._referenced_object
 
                     self._members[k] = tmp
+                    self._key_index[self._index_key(tmp)] = k
                     # the list itself has been modified, as well as the entry
                     self._set()
 
@@ -747,7 +768,9 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def __delitem__(self, k):
-            del self._members[k]
+            entry = self._members.pop(self._member_key(k))
+            if self._keyval:
+                self._key_index.pop(self._index_key(entry), None)
 
         def __len__(self):
             return len(self._members)
@@ -817,7 +840,7 @@ def YANGListType(*args, **kwargs):
 
             (k, keyargs) = self._generate_key(*args, **kwargs)
 
-            if k in self._members:
+            if k in self:
                 raise KeyError("%s is already defined as a list entry" % k)
             if self._keyval and keyargs is None:
                 if k is None:
@@ -839,7 +862,7 @@ def YANGListType(*args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
 
             if self._path_helper:
-                current_item = self._members[k]
+                current_item = self[k]
                 if " " in self._keyval:
                     keyparts = self._keyval.split(" ")
                     keyargs = k.split(" ")
@@ -856,7 +879,7 @@ def YANGListType(*args, **kwargs):
                 obj_path = self._parent._path() + [self._yang_name + key_string]
 
             try:
-                del self._members[k]
+                del self[k]
                 if self._path_helper:
                     self._path_helper.unregister(obj_path)
             except KeyError as m:
@@ -875,7 +898,7 @@ def YANGListType(*args, **kwargs):
                     raise KeyError("Must specify all keys to retrieve a list entry")
             keystr = keystr[:-1]
 
-            return self._members[keystr]
+            return self[keystr]
 
         def get(self, filter=False):
             d = collections.OrderedDict()
-- 
2.43.0


From 012f53271ff20128a11f01ebcda35f42e4044331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 20/76] fix: keep the path helper in step with the objects in
 the tree

Values equal to the one they replaced were not registered, and the entries
of a list that was replaced, or that an item was deleted from with del,
stayed registered, as did everything below an unregistered entry.
---
 pyangbind/lib/xpathhelper.py | 14 ++++++++++----
 pyangbind/lib/yangtypes.py   | 25 ++++++-------------------
 2 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 02a5635..433c636 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -244,9 +244,12 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("duplicate objects in tree - %s" % object_path)
         if this_obj_existing is not None and not this_obj_existing == []:
             this_obj_existing = this_obj_existing[0]
-            if self._library[this_obj_existing.get("obj_ptr")] == object_ptr:
+            if self._library[this_obj_existing.get("obj_ptr")] is object_ptr:
                 return True
             else:
+                # the object that is being replaced takes what it contained with it
+                for child in list(this_obj_existing):
+                    self._remove(child)
                 del self._library[this_obj_existing.get("obj_ptr")]
                 new_uuid = str(uuid.uuid1())
                 self._library[new_uuid] = object_ptr
@@ -288,9 +291,12 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("object did not exist to unregister - %s" % object_path)
 
         for obj in existing_objs:
-            ref = obj.get("obj_ptr")
-            del self._library[ref]
-            obj.getparent().remove(obj)
+            self._remove(obj)
+
+    def _remove(self, obj):
+        for elem in obj.iter():
+            del self._library[elem.get("obj_ptr")]
+        obj.getparent().remove(obj)
 
     def _get_etree(self, object_path, caller=False):
         fx_q = self._encode_path(object_path, caller=caller)
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index eb43925..5b8ee45 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -771,6 +771,8 @@ def YANGListType(*args, **kwargs):
             entry = self._members.pop(self._member_key(k))
             if self._keyval:
                 self._key_index.pop(self._index_key(entry), None)
+                if self._path_helper and self._register_paths:
+                    self._path_helper.unregister(entry._path())
 
         def __len__(self):
             return len(self._members)
@@ -861,27 +863,8 @@ def YANGListType(*args, **kwargs):
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
 
-            if self._path_helper:
-                current_item = self[k]
-                if " " in self._keyval:
-                    keyparts = self._keyval.split(" ")
-                    keyargs = k.split(" ")
-                    key_string = "["
-                    for key, val in zip(keyparts, keyargs):
-                        kv_o = getattr(current_item, key)
-                        key_string += "%s=%s " % (kv_o.yang_name(), val)
-                    key_string = key_string.rstrip(" ")
-                    key_string += "]"
-                else:
-                    kv_o = getattr(current_item, self._keyval)
-                    key_string = "[@%s=%s]" % (kv_o.yang_name(), k)
-
-                obj_path = self._parent._path() + [self._yang_name + key_string]
-
             try:
                 del self[k]
-                if self._path_helper:
-                    self._path_helper.unregister(obj_path)
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
 
@@ -1110,6 +1093,10 @@ def YANGDynClass(*args, **kwargs):
             # A container must be registered before the nodes within it.
             if self._is_container == "container":
                 self.__register()
+            elif self._is_container == "list" and self._path_helper and self._register_paths:
+                # the entries of a list that this one replaces
+                if self._path_helper.get(self._register_path()):
+                    self._path_helper.unregister(self._register_path())
 
             if self._is_container == "list" or self._is_container == "container":
                 kwargs["path_helper"] = self._path_helper
-- 
2.43.0


From de7f47f60817252967d044a1e42c37a7c7919ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 21/76] fix: allow spaces and quotes in list keys with a path
 helper

Adding an entry with a key such as "ge 0/0" raised XPathError, or registered
it under a path that did not find it.
---
 pyangbind/lib/xpathhelper.py | 23 +++++++++++++----------
 pyangbind/lib/yangtypes.py   |  5 ++---
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 433c636..562b7f5 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -105,11 +105,12 @@ class FakeRoot(PybindBase):
 
 
 class YANGPathHelper(PybindXpathHelper):
-    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
+    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(\[(?P<args>(?:'[^']*'|\"[^\"]*\"|[^\]])+)\])+$")
     _arg_re = regex.compile(
         r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
-        + r"=([ ]+)?['\"]?(?P<arg>[^ ^'^\"]+)(['\"])?([ ]+)?"
-        + "(?P<remainder>.*)"
+        + r"=([ ]+)?(?:'(?P<arg>[^']*)'|\"(?P<arg>[^\"]*)\"|(?P<arg>[^ '\"]+))([ ]+)?"
+        + "(?P<remainder>.*)",
+        flags=regex.DOTALL,
     )
     _relative_path_re = regex.compile(r"^(\.|\.\.)")
 
@@ -187,7 +188,8 @@ class YANGPathHelper(PybindXpathHelper):
                                 "XPATH specified a current() expression that " + "returned a non-unique list"
                             )
                         v = resolved_current_attr[0]
-                    epath += "@%s='%s' " % (k, v)
+                    quote = '"' if "'" in str(v) else "'"
+                    epath += "@%s=%s%s%s " % (k, quote, v, quote)
                     if mode == "search":
                         epath += "and "
                 if mode == "search":
@@ -201,16 +203,17 @@ class YANGPathHelper(PybindXpathHelper):
 
     def _tagname_attributes(self, tag, normalise_namespace=True):
         tagname, attributes = tag, None
-        if self._attr_re.match(tag):
-            tagname, args = self._attr_re.sub(r"\g<tagname>||\g<args>", tag).split("||")
-            arg_parts = [i.strip("[") for i in args.split("]")]
+        attr_match = self._attr_re.match(tag)
+        if attr_match:
+            tagname = attr_match.group("tagname")
 
             attributes = {}
-            for arg in arg_parts:
+            for arg in attr_match.captures("args"):
                 tmp_arg = arg
                 while len(tmp_arg):
-                    if self._arg_re.match(tmp_arg):
-                        c, a, r = self._arg_re.sub(r"\g<cmd>||\g<arg>||\g<remainder>", tmp_arg).split("||")
+                    arg_match = self._arg_re.match(tmp_arg)
+                    if arg_match:
+                        c, a, r = arg_match.group("cmd", "arg", "remainder")
                         if ":" in c and normalise_namespace:
                             c = c.split(":")[1]
                         attributes[c] = a
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 5b8ee45..b8d9f5e 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -685,15 +685,14 @@ def YANGListType(*args, **kwargs):
                         if k == "":
                             raise KeyError("Cannot set a null key for a list entry!")
                         keydict = {self._keyval: k}
-                        kv_obj = getattr(tmp, self._keyval)
-                        path_keystring = "[%s='%s']" % (kv_obj.yang_name(), k)
 
                     if keydict is not None:
                         keys = self._keyval.split(" ")
                         path_keystring = "["
                         for kv in keys:
                             kv_obj = getattr(tmp, kv)
-                            path_keystring += "%s='%s' " % (kv_obj.yang_name(), keydict[kv])
+                            quote = '"' if "'" in str(keydict[kv]) else "'"
+                            path_keystring += "%s=%s%s%s " % (kv_obj.yang_name(), quote, keydict[kv], quote)
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
-- 
2.43.0


From 073f2c78e5b51aee97c959e0fae82fd0ef7a82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 22/76] fix: serialise the members of boolean and binary
 leaf-lists

Booleans were written as 0 and 1, and binary values could not be serialised.
---
 pyangbind/lib/serialise.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 1135981..dbf069e 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -34,7 +34,7 @@ import base64
 from enum import IntEnum
 from lxml import objectify, etree
 
-from pyangbind.lib.yangtypes import YANGBool, safe_name
+from pyangbind.lib.yangtypes import YANGBinary, YANGBool, safe_name
 
 
 long = int
@@ -160,10 +160,12 @@ class YangDataSerialiser(object):
             return ndict
         elif isinstance(obj, (str,)):
             return str(obj)
-        elif isinstance(obj, (int,)):
-            return int(obj)
         elif isinstance(obj, (YANGBool, bool)):
             return bool(obj)
+        elif isinstance(obj, (int,)):
+            return int(obj)
+        elif isinstance(obj, YANGBinary):
+            return str(base64.b64encode(obj), "ascii")
         elif isinstance(obj, Decimal):
             return self.yangt_decimal(obj)
 
-- 
2.43.0


From 4efa37ee71fb8a62d50bffa66427c3328561fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 23/76] fix: encode and decode identityrefs and text in
 leaf-lists and list keys

An XML document lost the text of leaf-list members and list keys (007 became
7) and empty strings, and wrote True for booleans in a leaf-list. Identities
of a leaf-list were not qualified, nor were those whose name starts with the
name of their module, and a leaf-list of identities could not be written as
XML at all.
---
 pyangbind/lib/serialise.py | 54 +++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index dbf069e..7ce0253 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -28,6 +28,7 @@ from __future__ import unicode_literals
 
 import json
 from collections import OrderedDict
+from collections.abc import MutableSequence
 from decimal import Decimal
 import base64
 
@@ -122,7 +123,7 @@ class YangDataSerialiser(object):
             return self.yangt_long(obj)
         elif orig_yangt in ["identityref"]:
             try:
-                return self.yangt_identityref(obj)
+                return self.yangt_identityref(obj, obj._defining_module)
             except UnmappedItem:
                 pass
         elif orig_yangt in ["int8", "int16", "int32", "uint8", "uint16", "uint32"]:
@@ -212,7 +213,7 @@ class YangDataSerialiser(object):
         # don't need to special-case for PY3 because we assign `long = int` in the header
         return long(obj)
 
-    def yangt_identityref(self, obj):
+    def yangt_identityref(self, obj, defining_module):
         # we don't want to do anything for non-IETF serialisation, this will fall-through
         raise UnmappedItem
 
@@ -223,6 +224,11 @@ class YangDataSerialiser(object):
         return bool(obj)
 
     def yangt_typed_list(self, obj):
+        if obj._yang_type == "identityref":
+            try:
+                return [self.yangt_identityref(i, obj._defining_module) for i in obj]
+            except UnmappedItem:
+                pass
         return [self.default(i) for i in obj]
 
 
@@ -234,12 +240,12 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_long(self, obj):
         return str(obj)
 
-    def yangt_identityref(self, obj):
+    def yangt_identityref(self, obj, defining_module):
         try:
             emod = obj._enumeration_dict[obj]["@module"]
-            if emod != obj._defining_module:
+            if emod != defining_module:
                 # if not already prefixed with the type namespace
-                if not obj.startswith("%s" % emod):
+                if not obj.startswith("%s:" % emod):
                     return "%s:%s" % (emod, obj)
         except KeyError:
             pass
@@ -263,7 +269,7 @@ class XmlYangDataSerialiser(IETFYangDataSerialiser):
     def yangt_typed_list(self, obj):
         # We have already used a standard list to denote a container, so we instead we use a custom list
         # type here in the serialised model
-        return SerialisedTypedList([self.default(i) for i in obj])
+        return SerialisedTypedList(super(XmlYangDataSerialiser, self).yangt_typed_list(obj))
 
     def yangt_empty(self, obj):
         return None
@@ -344,7 +350,7 @@ class pybindIETFXMLEncoder(object):
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i))
+                        el = E(k, str(i).lower() if isinstance(i, bool) else str(i))
                         parent.append(el)
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
@@ -374,9 +380,10 @@ class pybindIETFXMLEncoder(object):
         ns_map = [(None, element._namespace)]
         if element._yang_type == "identityref" and element._changed():
             # configured identityref (i.e. points to a valid identity)
-            ns_map.append(
-                (element._enumeration_dict[element]["@module"], element._enumeration_dict[element]["@namespace"])
-            )
+            for value in element if isinstance(element, MutableSequence) else [element]:
+                ns = (value._enumeration_dict[value]["@module"], value._enumeration_dict[value]["@namespace"])
+                if ns not in ns_map:
+                    ns_map.append(ns)
         return yname, tuple(ns_map)
 
     @classmethod
@@ -522,8 +529,8 @@ class pybindIETFXMLDecoder(object):
                 key_parts = []
                 add_kwargs = {}
                 for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = child[ykv]
-                    key_parts.append(str(child[ykv]))
+                    add_kwargs[pkv] = child[ykv].text or ""
+                    key_parts.append(add_kwargs[pkv])
                 key_str = " ".join(map(str, key_parts))
                 if key_str not in chobj:
                     nobj = chobj.add(**add_kwargs)
@@ -536,26 +543,17 @@ class pybindIETFXMLDecoder(object):
                 )
 
             elif hasattr(chobj, "_pybind_generated_by") and chobj._pybind_generated_by == "TypedListType":
-                # NOTE: this is a little curious, because we are relying on the coercion of types
-                #   i.e. lxml will "identify" the type based on its own internal model of Python
-                #   types, see: https://lxml.de/2.0/objectify.html#how-data-types-are-matched
-                # There are limitations which need to be addressed, e.g. hexadecimal strings.
-                # Already, we have a stringify-fallback: if we fail on the first attempt then
-                # try again as a pure string (if its allowed).
-                try:
-                    chobj.append(child.pyval)
-                except ValueError:
-                    if str in chobj._allowed_type:
-                        chobj.append(str(child.pyval))
-                    else:
-                        raise
+                val = child.text or ""
+                if chobj._yang_type == "identityref":
+                    val = val.split(":", 1)[-1]
+                chobj.append(val)
 
             else:
                 if chobj._is_keyval is True:
                     # we've already added the key
                     continue
 
-                val = child.text
+                val = child.text or ""
                 if chobj._yang_type == "empty":
                     if child.text is None:
                         val = True
@@ -869,7 +867,9 @@ class pybindJSONDecoder(object):
                         # but we don't build identities with these as valid values. If this is the
                         # case then re-write the value to just be the name of the identity that we
                         # should know about.
-                        if ":" in val:
+                        if isinstance(val, list):
+                            val = [i.split(":", 1)[-1] for i in val]
+                        elif ":" in val:
                             _, val = val.split(":", 1)
 
                     if val is not None:
-- 
2.43.0


From 913c75e427f3ff47f0f544f2bc620dc1cb600225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 24/76] fix: write a 64-bit integer with a restricted range as
 a string in IETF JSON

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index b8d9f5e..4abfa94 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -206,7 +206,7 @@ def RestrictedClassType(*args, **kwargs):
         _pybind_generated_by = "RestrictedClassType"
 
         _restricted_class_base = restricted_class_hint
-        _restricted_int_size = int_size
+        _restricted_int_size = int_size if int_size is not None else getattr(base_type, "_restricted_int_size", None)
 
         def __init__(self, *args, **kwargs):
             """
-- 
2.43.0


From 4e96e1d2bff332fae288a396d941ab493829c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 25/76] fix: leave unset leaves out of IETF encodings

with_defaults=IF_SET wrote the unset leaves whose null value equals False,
and an empty leaf set to False was written as a value that cannot be loaded
in JSON and as a set leaf in XML.
---
 pyangbind/lib/serialise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 7ce0253..e3a8c4d 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -452,13 +452,16 @@ def make_generate_ietf_tree(yname_ns_func):
                 if not len(d[yname]):
                     del d[yname]
             else:
+                if getattr(element, "_yang_type", None) == "empty" and not element:
+                    # a leaf of type empty has no value other than its existence
+                    continue
                 if with_defaults is None:
                     if flt and element._changed():
                         d[yname] = element
                     elif not flt:
                         d[yname] = element
                 elif with_defaults == WithDefaults.IF_SET:
-                    if element._changed() or element._default == element:
+                    if element._changed():
                         d[yname] = element
         return d
 
-- 
2.43.0


From 9443575d6361b03f2551128ce0c559bce967a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 26/76] fix: load the entries of a keyless list from JSON

---
 pyangbind/lib/serialise.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index e3a8c4d..79bceba 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -662,9 +662,13 @@ class pybindJSONDecoder(object):
                     key_order = d[key].keys()
 
                 for child_key in key_order:
-                    if child_key not in chobj:
-                        chobj.add(child_key)
-                    parent = chobj[child_key]
+                    if chobj._keyval is False:
+                        # the key was generated, and means nothing to this list
+                        parent = chobj[chobj.add()]
+                    else:
+                        if child_key not in chobj:
+                            chobj.add(child_key)
+                        parent = chobj[child_key]
                     pybindJSONDecoder.load_json(
                         d[key][child_key],
                         parent,
-- 
2.43.0


From b60071c1e62c72c21ac06196bcc31c3c3dbd2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 27/76] fix: keep the values of leaf-lists loaded from JSON

A value whose JSON form is not equal to the value itself, such as a decimal,
binary or bits value, was removed again as soon as it was loaded.
---
 pyangbind/lib/serialise.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 79bceba..c9ce10f 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -683,21 +683,8 @@ class pybindJSONDecoder(object):
                         if child_key not in d[key]:
                             chobj.delete(child_key)
             elif pybind_attr in ["TypedListType"]:
-                if not overwrite:
-                    list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-                    for item in d[key]:
-                        if item not in list_obj:
-                            list_obj.append(item)
-                    list_copy = []
-                    for elem in list_obj:
-                        list_copy.append(elem)
-                    for e in list_copy:
-                        if e not in d[key]:
-                            list_obj.remove(e)
-                    set_via_stdmethod = False
-                else:
-                    # use the set method
-                    pass
+                # the leaf-list is to have the values in the document, use the set method
+                pass
             elif pybind_attr in [
                 "RestrictedClassType",
                 "ReferencePathType",
-- 
2.43.0


From 18810b26bf52eeded49d179bddc6b59b4fcaf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 28/76] fix: do not modify the document that JSON is loaded
 from

The order of user ordered lists was removed from it, and lost when the same
document was loaded again.
---
 pyangbind/lib/serialise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c9ce10f..06046ce 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -608,6 +608,9 @@ class pybindJSONDecoder(object):
             return obj
 
         for key in d:
+            if key == "__yang_order":
+                # metadata of a list entry, rather than a node
+                continue
             child = getattr(obj, "_get_%s" % safe_name(key), None)
             if child is None and skip_unknown is False:
                 raise AttributeError("JSON object contained a key that" + "did not exist (%s)" % (key))
@@ -652,8 +655,6 @@ class pybindJSONDecoder(object):
                             okeys.append(k)
                         else:
                             kdict[v["__yang_order"]] = k
-                            # Throw this metadata away
-                            v.pop("__yang_order", None)
                     okeys.reverse()
                     key_order = [kdict[k] for k in sorted(kdict)]
                     for add_element in okeys:
-- 
2.43.0


From ab9ddadaee9862a9210c8dd229f34be4ffb79bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 29/76] fix: overwrite and skip_unknown when loading lists from
 JSON

---
 pyangbind/lib/serialise.py | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 06046ce..e81bf16 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -631,7 +631,13 @@ class pybindJSONDecoder(object):
                         unsetchildelem = getattr(chobj, "_unset_%s" % elem)
                         unsetchildelem()
                 pybindJSONDecoder.load_json(
-                    d[key], chobj, yang_base, obj=chobj, path_helper=path_helper, skip_unknown=skip_unknown
+                    d[key],
+                    chobj,
+                    yang_base,
+                    obj=chobj,
+                    path_helper=path_helper,
+                    overwrite=overwrite,
+                    skip_unknown=skip_unknown,
                 )
                 set_via_stdmethod = False
             elif pybind_attr in ["YANGListType", "list"]:
@@ -662,6 +668,12 @@ class pybindJSONDecoder(object):
                 else:
                     key_order = d[key].keys()
 
+                if overwrite:
+                    document_keys = [chobj._member_key(k) for k in d[key]]
+                    for child_key in list(chobj):
+                        if chobj._keyval is False or child_key not in document_keys:
+                            chobj.delete(child_key)
+
                 for child_key in key_order:
                     if chobj._keyval is False:
                         # the key was generated, and means nothing to this list
@@ -676,13 +688,11 @@ class pybindJSONDecoder(object):
                         yang_base,
                         obj=parent,
                         path_helper=path_helper,
+                        overwrite=overwrite,
                         skip_unknown=skip_unknown,
                     )
-                    set_via_stdmethod = False
-                if overwrite:
-                    for child_key in chobj:
-                        if child_key not in d[key]:
-                            chobj.delete(child_key)
+                # an empty list has nothing to set, either
+                set_via_stdmethod = False
             elif pybind_attr in ["TypedListType"]:
                 # the leaf-list is to have the values in the document, use the set method
                 pass
@@ -788,17 +798,19 @@ class pybindJSONDecoder(object):
                     skip_unknown=skip_unknown,
                 )
             elif isinstance(d[key], list):
+                this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
+                if this_attr is None:
+                    if skip_unknown is not False:
+                        continue
+                    raise AttributeError("List specified that did not exist")
+                this_attr = this_attr()
+                # the entries that are replaced
+                if overwrite and hasattr(this_attr, "_keyval"):
+                    for i in list(this_attr.keys()):
+                        this_attr.delete(i)
                 for elem in d[key]:
                     # if this is a list, then this is a YANG list
-                    this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                    if this_attr is None:
-                        raise AttributeError("List specified that did not exist")
-                    this_attr = this_attr()
                     if hasattr(this_attr, "_keyval"):
-                        if overwrite:
-                            existing_keys = this_attr.keys()
-                            for i in existing_keys:
-                                this_attr.delete(i)
                         #  this handles YANGLists
                         if this_attr._keyval is False:
                             # Keyless list, generate a key
-- 
2.43.0


From b1a9010546438aa81a4d5644b8b0bb0d87e1582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 30/76] fix: name each key of a list as its leaf is named, and
 keep more names usable

The keys of a list with several keys were made safe as one string, so a key
whose name is reserved in Python could not be given by keyword. Names that
are Python keywords, or that the classes themselves use, were not reserved.
---
 pyangbind/lib/yangtypes.py | 10 ++++++++++
 pyangbind/plugin/pybind.py | 15 ++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4abfa94..bc4bb32 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -86,6 +86,16 @@ reserved_name = [
     "min",
     "max",
     "async",
+    "await",
+    "nonlocal",
+    "None",
+    "True",
+    "False",
+    "OrderedDict",
+    "append",
+    "extend",
+    "elements",
+    "self",
 ]
 
 
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 8c065ae..2c9b449 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -812,11 +812,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # is and store this such that we can give a hint.
         keyval = False
         if parent.keyword == "list":
-            keyval = parent.search_one("key").arg if parent.search_one("key") is not None else False
-            if keyval and " " in keyval:
-                keyval = keyval.split(" ")
-            else:
-                keyval = [keyval]
+            keyval = parent.search_one("key").arg.split() if parent.search_one("key") is not None else [False]
 
         # Auto-generate a docstring based on the description that is provided in
         # the YANG module. This aims to provide readability to someone perusing the
@@ -1547,12 +1543,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
             if element.keyword == "list":
-                elemdict["key"] = (
-                    safe_name(element.search_one("key").arg) if element.search_one("key") is not None else False
-                )
-                elemdict["yang_keys"] = (
-                    element.search_one("key").arg if element.search_one("key") is not None else False
-                )
+                keys = element.search_one("key").arg.split() if element.search_one("key") is not None else []
+                elemdict["key"] = " ".join(safe_name(key) for key in keys) if keys else False
+                elemdict["yang_keys"] = " ".join(keys) if keys else False
                 user_ordered = element.search_one("ordered-by")
                 elemdict["user_ordered"] = (
                     True if user_ordered is not None and user_ordered.arg.upper() == "USER" else False
-- 
2.43.0


From ab1af5808be335ae0ade52bfe8829bdba8d83c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 31/76] fix: refuse unknown attributes on a container that has
 no children

---
 pyangbind/plugin/pybind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 2c9b449..6c3acb8 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -838,6 +838,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
     elements_str = ""
     if len(elements) == 0:
+        nfd.write("  __slots__ = ()\n\n")
         nfd.write("  _pyangbind_elements = {}")
     else:
         # We want to prevent a user from creating new attributes on a class that
-- 
2.43.0


From 7f8dfc7615ced8dbcccecabe7357e371bca3530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 32/76] fix: accept an enum whose name starts with an at sign

---
 pyangbind/lib/yangtypes.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index bc4bb32..8459f79 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -343,9 +343,6 @@ def RestrictedClassType(*args, **kwargs):
                     self._restriction_tests.append(in_range_check(lengths, length=True))
                 elif rtype == "dict_key":
                     new_rarg = copy.deepcopy(rarg)
-                    for k in rarg:
-                        if k.startswith("@"):
-                            new_rarg.pop(k, None)
                     # populate enum values
                     # RFC 7950 9.6.4.2 - one more than the highest value so far
                     highest = None
-- 
2.43.0


From f64a1fe60c1c4cfed02c8b99c604bd7e0fd979ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 33/76] fix: refuse unknown attributes on the entries of a
 keyless list

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8459f79..1f7b956 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -765,7 +765,7 @@ def YANGListType(*args, **kwargs):
                     parent=parent,
                     yang_name=yang_name,
                     choice=choice,
-                    is_container=is_container,
+                    is_container="container",
                     path_helper=path_helper,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
-- 
2.43.0


From 13daabbac3b980b75aaba37d01614c5978a05045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 34/76] fix: resolve typedefs and identity bases where they are
 defined

Typedefs were looked up by the prefix they are written with and by their bare
name, so that of two typedefs of one name, in different modules or scopes, one
was used for both.
---
 pyangbind/helpers/identity.py |  12 +--
 pyangbind/helpers/misc.py     |  12 +++
 pyangbind/plugin/pybind.py    | 148 ++++++++++++++--------------------
 3 files changed, 73 insertions(+), 99 deletions(-)

diff --git a/pyangbind/helpers/identity.py b/pyangbind/helpers/identity.py
index e99b5b0..27deeee 100644
--- a/pyangbind/helpers/identity.py
+++ b/pyangbind/helpers/identity.py
@@ -16,7 +16,6 @@ See the License for the specific language governing permissions and
 limitations under the License.
 """
 
-from pyang import util
 from .misc import module_import_prefixes
 
 
@@ -99,17 +98,8 @@ class IdentityStore(object):
             base_ids = []
             bases = iddef.search("base")
             for base in bases:
-                # Determine what the name of the base and the prefix for
-                # the base should be
-                if ":" in base.arg:
-                    base_pfx, base_name = base.arg.split(":")
-                else:
-                    base_pfx, base_name = prefix, base.arg
-
-                parent_module = util.prefix_to_module(defmod, base_pfx, base.pos, ctx.errors)
-
                 # Find whether we have the base in the store
-                base_id = self.find_identity_by_source_name(parent_module.arg, base_name)
+                base_id = self.find_identity_by_source_name(base.i_identity.main_module().arg, base.i_identity.arg)
 
                 if base_id is None:
                     # and if not, then push this identity back onto the stack
diff --git a/pyangbind/helpers/misc.py b/pyangbind/helpers/misc.py
index c4d2619..8e73d10 100644
--- a/pyangbind/helpers/misc.py
+++ b/pyangbind/helpers/misc.py
@@ -48,6 +48,18 @@ def find_child_definitions(obj, defn, prefix, definitions):
     return definitions
 
 
+def find_typedefs(stmt):
+    # Find the typedef statements anywhere below a statement: at the top of a
+    # module, or in the scope of one of the nodes within it.
+    typedefs = []
+    for ch in stmt.substmts:
+        if ch.keyword == "typedef":
+            typedefs.append(ch)
+        else:
+            typedefs.extend(find_typedefs(ch))
+    return typedefs
+
+
 def find_definitions(defn, ctx, module, prefix):
     # Find the statements within a module that map to a particular type of
     # statement, for instance - find typedefs, or identities, and reutrn them
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 6c3acb8..3c474b6 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -30,7 +30,7 @@ import os
 import sys
 from collections import OrderedDict
 
-from pyang import plugin, statements, util
+from pyang import plugin, statements
 
 import pyangbind.helpers.misc as misc_help
 from pyangbind.helpers.identity import IdentityStore
@@ -385,14 +385,13 @@ long = int
 
     # Build a list of the 'typedef' and 'identity' statements that are included
     # in the modules supplied.
-    defn = OrderedDict()
-    for defnt in ["typedef", "identity"]:
-        defn[defnt] = OrderedDict()
-        for m in all_mods:
-            t = misc_help.find_definitions(defnt, ctx, m[1], m[0])
-            for k in t:
-                if k not in defn[defnt]:
-                    defn[defnt][k] = t[k]
+    defn = OrderedDict([("typedef", OrderedDict()), ("identity", OrderedDict())])
+    for _, m in all_mods:
+        for t in misc_help.find_typedefs(m):
+            defn["typedef"][typedef_name(t)] = t
+        # A prefix may stand for different modules in different modules, hence
+        # the definitions are told apart by the name of the module.
+        defn["identity"].update(misc_help.find_definitions("identity", ctx, m, m.arg))
 
     # Build the identities and typedefs (these are added to the class_map which
     # is globally referenced).
@@ -445,24 +444,13 @@ def build_identities(ctx, defnd):
 
     identity_dict = {}
     for identity in idstore:
-        for prefix in identity.prefixes():
-            ident = "%s:%s" % (prefix, identity.name)
-            identity_dict[ident] = {}
-            identity_dict["%s" % identity.name] = {}
-            for ch in identity.children:
-                d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
-                for cpfx in ch.prefixes() + [None]:
-                    if cpfx is not None:
-                        spfx = "%s:" % cpfx
-                    else:
-                        spfx = ""
-                    identity_dict[ident][ch.name] = d
-                    identity_dict[identity.name][ch.name] = d
-                    identity_dict[ident]["%s%s" % (spfx, ch.name)] = d
-                    identity_dict[identity.name]["%s%s" % (spfx, ch.name)] = d
-
-        if identity.name not in identity_dict:
-            identity_dict[identity.name] = {}
+        values = {}
+        for ch in identity.children:
+            d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
+            values[ch.name] = d
+            for cpfx in ch.prefixes():
+                values["%s:%s" % (cpfx, ch.name)] = d
+        identity_dict[identity_name(identity.source_module, identity.name)] = values
 
     # Add entries to the class_map such that this identity can be referenced by
     # elements that use this identity ref.
@@ -479,6 +467,31 @@ def build_identities(ctx, defnd):
         class_map[i] = id_type
 
 
+def typedef_name(typedef):
+    # The name that a typedef has in the class_map. Typedefs of the same name can
+    # exist in different modules, and within different nodes of one module.
+    scope = []
+    parent = typedef.parent
+    while parent.parent is not None:
+        scope.insert(0, "%s %s/" % (parent.keyword, parent.arg))
+        parent = parent.parent
+    return "%s:%s%s" % (typedef.main_module().arg, "".join(scope), typedef.arg)
+
+
+def referenced_typedefs(et):
+    # The typedefs that must be known for a type to be built.
+    typedef = getattr(et, "i_typedef", None)
+    typedefs = [] if typedef is None else [typedef]
+    for i in et.search("type"):
+        typedefs.extend(referenced_typedefs(i))
+    return typedefs
+
+
+def identity_name(module, name):
+    # The name that the type which has an identity as its base has in the class_map.
+    return "identity %s:%s" % (module, name)
+
+
 def build_typedefs(ctx, defnd):
     # Build the type definitions that are specified within a model. Since
     # typedefs are essentially derived from existing types, order of processing
@@ -489,63 +502,16 @@ def build_typedefs(ctx, defnd):
         unresolved_tc[i] = 0
     unresolved_t = list(defnd.keys())
     error_ids = []
-    known_types = list(class_map.keys())
-    known_types.append("enumeration")
-    known_types.append("leafref")
-    known_types.append("bits")
-    base_types = copy.deepcopy(known_types)
+    known_typedefs = set()
     process_typedefs_ordered = []
 
     while len(unresolved_t):
         t = unresolved_t.pop(0)
-        base_t = defnd[t].search_one("type")
-        if base_t.arg == "union":
-            subtypes = []
-            for i in base_t.search("type"):
-                if i.arg == "identityref":
-                    subtypes.append(i.search_one("base"))
-                else:
-                    subtypes.append(i)
-        elif base_t.arg == "identityref":
-            subtypes = [base_t.search_one("base")]
-        else:
-            subtypes = [base_t]
+        subtypes = [typedef_name(i) for i in referenced_typedefs(defnd[t].search_one("type"))]
 
-        any_unknown = False
-        for i in subtypes:
-            # Resolve this typedef to the module that it
-            # was defined by
-
-            if ":" in i.arg:
-                defining_module = util.prefix_to_module(
-                    defnd[t].i_module, i.arg.split(":")[0], defnd[t].pos, ctx.errors
-                )
-            else:
-                defining_module = defnd[t].i_module
-
-            belongs_to = defining_module.search_one("belongs-to")
-            if belongs_to is not None:
-                for mod in ctx.modules:
-                    if mod[0] == belongs_to.arg:
-                        defining_module = ctx.modules[mod]
-
-            real_pfx = defining_module.search_one("prefix").arg
-
-            if ":" in i.arg:
-                tn = "%s:%s" % (real_pfx, i.arg.split(":")[1])
-            elif i.arg not in base_types:
-                # If this was not a base type (defined in YANG) then resolve it
-                # to the module it belongs to.
-                tn = "%s:%s" % (real_pfx, i.arg)
-            else:
-                tn = i.arg
-
-            if tn not in known_types:
-                any_unknown = True
-
-        if not any_unknown:
+        if all(i in known_typedefs for i in subtypes):
             process_typedefs_ordered.append((t, defnd[t]))
-            known_types.append(t)
+            known_typedefs.add(t)
         else:
             unresolved_tc[t] += 1
             if unresolved_tc[t] > 1000:
@@ -553,7 +519,7 @@ def build_typedefs(ctx, defnd):
                 # typedef that has a type in it that is not found after many iterations
                 # then we should bail.
                 error_ids.append(t)
-                sys.stderr.write("could not find a match for %s type -> %s\n" % (t, [i.arg for i in subtypes]))
+                sys.stderr.write("could not find a match for %s type -> %s\n" % (t, subtypes))
             else:
                 unresolved_t.append(t)
 
@@ -591,7 +557,7 @@ def build_typedefs(ctx, defnd):
             if "parent_type" in elemtype:
                 class_map[type_name]["parent_type"] = elemtype["parent_type"]
             else:
-                yang_type = item.search_one("type").arg
+                yang_type = class_map_name(item.search_one("type"))
                 if yang_type not in known_types:
                     raise TypeError("typedef specified a native type that was not " + "supported")
                 class_map[type_name]["parent_type"] = yang_type
@@ -642,8 +608,6 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["default"] = default[0]
                 class_map[type_name]["quote_default"] = default[1]
 
-        class_map[type_name.split(":")[1]] = class_map[type_name]
-
 
 def get_children_elements(
     ctx,
@@ -1220,11 +1184,18 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def class_map_name(et):
+    # The name under which the type that a type statement refers to is to be found.
+    typedef = getattr(et, "i_typedef", None)
+    return et.arg if typedef is None else typedef_name(typedef)
+
+
 def build_elemtype(ctx, et, prefix=False):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
     cls = None
+    type_name = class_map_name(et)
     pattern_stmt = et.search_one("pattern") if not et.search_one("pattern") is None else False
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
@@ -1254,7 +1225,7 @@ def build_elemtype(ctx, et, prefix=False):
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
     if len(restrictions):
-        base_native_type = class_map[et.arg]["native_type"]
+        base_native_type = class_map[type_name]["native_type"]
         if et.search_one("fraction-digits") is not None:
             base_native_type = "RestrictedPrecisionDecimalType(precision=%s)" % et.search_one("fraction-digits").arg
         if "length" in restrictions or "pattern" in restrictions:
@@ -1263,7 +1234,7 @@ def build_elemtype(ctx, et, prefix=False):
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
                 % (base_native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
         elif "range" in restrictions:
@@ -1272,7 +1243,7 @@ def build_elemtype(ctx, et, prefix=False):
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
                 % (base_native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
 
@@ -1318,7 +1289,7 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = []
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
-                elemtype_s[1]["yang_type"] = uniontype.arg
+                elemtype_s[1]["yang_type"] = class_map_name(uniontype)
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
@@ -1351,7 +1322,8 @@ def build_elemtype(ctx, et, prefix=False):
             if base_stmt is None:
                 raise ValueError("identityref specified with no base statement")
             try:
-                elemtype = class_map[base_stmt.arg]
+                identity = base_stmt.i_identity
+                elemtype = class_map[identity_name(identity.main_module().arg, identity.arg)]
             except KeyError:
                 sys.stderr.write("FATAL: identityref with an unknown base\n")
                 if DEBUG:
@@ -1381,7 +1353,7 @@ def build_elemtype(ctx, et, prefix=False):
             # at this point. In the case that we are referencing a type that is a
             # typedef, then this has been added to the class_map.
             try:
-                elemtype = class_map[et.arg]
+                elemtype = class_map[type_name]
             except KeyError:
                 passed = False
                 if prefix:
-- 
2.43.0


From 7675ed4f8a926eb29cdacef9c3857d281753dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 35/76] fix: give a leaf the default that it has in YANG

A leaf's own default was overridden by that of its typedef, a default was not
inherited through two typedefs, one with quotes or a backslash was not valid
Python, one of a union could be taken for a value of the wrong member, and
default() did not tell a default such as 0 or false.
---
 pyangbind/lib/yangtypes.py |  8 +++++++-
 pyangbind/plugin/pybind.py | 18 ++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 1f7b956..0b46708 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -983,6 +983,12 @@ def YANGDynClass(*args, **kwargs):
 
     if isinstance(base_type, list):
         # this is a union, we must infer type
+        for candidate_type in base_type if default is not False else []:
+            try:
+                default = candidate_type(default)
+                break
+            except Exception:
+                pass
         if not len(args):
             # there is no argument to infer the type from
             # so use the first type (default)
@@ -1093,7 +1099,7 @@ def YANGDynClass(*args, **kwargs):
                             if not hasattr(self, "_method"):
                                 setattr(self, "_" + method, self.__generate_extmethod(member))
 
-            if default:
+            if default is not False:
                 self._default = default
 
             # A container must be registered before the nodes within it.
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 3c474b6..2a9b66c 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -133,7 +133,7 @@ class_map = {
         ),
     },
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
-    "decimal64": {"native_type": "Decimal", "base_type": True, "pytype": decimal.Decimal},
+    "decimal64": {"native_type": "Decimal", "base_type": True, "quote_arg": True, "pytype": decimal.Decimal},
     "empty": {
         "native_type": "YANGBool",
         "map": class_bool_map,
@@ -563,6 +563,8 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["parent_type"] = yang_type
             if default_stmt is not None:
                 class_map[type_name]["default"] = default_stmt.arg
+            elif "default" in elemtype:
+                class_map[type_name]["default"] = elemtype["default"]
             if "referenced_path" in elemtype:
                 class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
                 class_map[type_name]["class_override"] = "leafref"
@@ -844,7 +846,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = '"%s"' % (i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
@@ -894,7 +896,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                         class_str["arg"] += "%s," % u[1]["native_type"]
                 class_str["arg"] += "]"
                 if "default" in i and not i["default"] is None:
-                    class_str["arg"] += ", default=%s(%s)" % (i["defaulttype"], default_arg)
+                    # The member type that the default is a value of is determined
+                    # as it is for the values that the leaf is set to.
+                    class_str["arg"] += ", default=%s" % repr(i["default"])
             elif i["class"] == "leafref":
                 # A leafref, pyangbind uses the special ReferenceType which performs a
                 # lookup against the path_helper class provided.
@@ -928,10 +932,12 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     for u in i["type"]:
                         class_str["arg"] += "%s," % u
                     class_str["arg"] += "]"
+                    if "default" in i and not i["default"] is None:
+                        class_str["arg"] += ", default=%s" % repr(i["default"])
                 else:
                     class_str["arg"] = "base=%s" % i["type"]
-                if "default" in i and not i["default"] is None:
-                    class_str["arg"] += ", default=%s(%s)" % (i["defaulttype"], default_arg)
+                    if "default" in i and not i["default"] is None:
+                        class_str["arg"] += ", default=%s(%s)" % (i["defaulttype"], default_arg)
             if i["class"] == "container":
                 class_str["arg"] += ", is_container='container'"
                 if ctx.opts.generate_presence:
@@ -1548,7 +1554,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
         if elemdefault is not None:
             elemdefault = elemdefault.arg
             default_type = elemtype
-        if isinstance(elemtype, list):
+        elif isinstance(elemtype, list):
             # this is a union, we should check whether any of the types
             # immediately has a default
             for i in elemtype:
-- 
2.43.0


From bb8df69548e2248c670a04dd411a4103934e1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 36/76] fix: enforce the enums or bits that a derived type is
 restricted to

---
 pyangbind/plugin/pybind.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 2a9b66c..f9c571e 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1190,6 +1190,18 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def inherited_number(et, keyword, name):
+    # The value of an enum, or the position of a bit, of a type that is restricted
+    # to some of them: that which it has in the type that it is derived from.
+    while et.arg not in ["enumeration", "bits"]:
+        et = et.i_typedef.search_one("type")
+    numbers = {}
+    for i in et.search(keyword):
+        number = i.search_one("value" if keyword == "enum" else "position")
+        numbers[i.arg] = int(number.arg) if number is not None else 1 + max(numbers.values(), default=-1)
+    return numbers[name]
+
+
 def class_map_name(et):
     # The name under which the type that a type statement refers to is to be found.
     typedef = getattr(et, "i_typedef", None)
@@ -1258,13 +1270,16 @@ def build_elemtype(ctx, et, prefix=False):
         cls = "leaf"
         # Enumerations are built as RestrictedClasses where the value that is
         # provided to the class is check against the keys of a dictionary.
-        if et.arg == "enumeration":
+        # A typedef of an enumeration can be restricted to some of its values.
+        if et.arg == "enumeration" or et.search_one("enum") is not None:
             enumeration_dict = {}
             for enum in et.search("enum"):
                 enumeration_dict[str(enum.arg)] = {}
                 val = enum.search_one("value")
                 if val is not None:
                     enumeration_dict[str(enum.arg)]["value"] = int(val.arg)
+                elif et.arg != "enumeration":
+                    enumeration_dict[str(enum.arg)]["value"] = inherited_number(et, "enum", enum.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=str, \
                                     restriction_type="dict_key", \
@@ -1272,7 +1287,7 @@ def build_elemtype(ctx, et, prefix=False):
                 % (enumeration_dict),
                 "restriction_argument": enumeration_dict,
                 "restriction_type": "dict_key",
-                "parent_type": "string",
+                "parent_type": "string" if et.arg == "enumeration" else type_name,
                 "base_type": False,
             }
         # Map decimal64 to a RestrictedPrecisionDecimalType - this is there to
@@ -1337,12 +1352,14 @@ def build_elemtype(ctx, et, prefix=False):
                     pp.pprint(et.arg)
                     pp.pprint(base_stmt.arg)
                 sys.exit(127)
-        elif et.arg == "bits":
+        elif et.arg == "bits" or et.search_one("bit") is not None:
             allowed_bits = {}
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
                     pos = int(position.arg)
+                elif et.arg != "bits":
+                    pos = inherited_number(et, "bit", bit.arg)
                 else:
                     pos = 1 + max(allowed_bits.values(), default=-1)
                 allowed_bits[bit.arg] = pos
@@ -1350,7 +1367,7 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = {
                 "native_type": f"YANGBitsType(allowed_bits={allowed_bits})",
                 "base_type": True,
-                "parent_type": "bits",
+                "parent_type": type_name,
                 "quote_arg": True,
             }
         else:
@@ -1639,6 +1656,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 default_type = tmp_class_map[checked.pop()]
                 if not default_type["base_type"]:
                     raise TypeError("default type was not a base type")
+                if default_type is tmp_class_map["bits"]:
+                    # only the type of the element knows its bits
+                    default_type = elemtype
 
         # Set the default type based on what was determined above about the
         # correct value to set.
-- 
2.43.0


From 3ce076af8e8763036d330b8946ed42146e56836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 37/76] fix: generate valid code whatever descriptions,
 patterns and namespaces contain

---
 pyangbind/plugin/pybind.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f9c571e..4aa1bc7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -785,7 +785,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # code that is generated.
         parent_descr = parent.search_one("description")
         if parent_descr is not None:
-            parent_descr = "\n\n  YANG Description: %s" % parent_descr.arg
+            parent_descr = "\n\n  YANG Description: %s" % triple_quotable(parent_descr.arg)
         else:
             parent_descr = ""
 
@@ -831,7 +831,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             mod_location = next(v for k, v in ctx.modules.items() if k[0] == module.i_modulename)
         else:
             mod_location = module
-        nfd.write("  _yang_namespace = '%s'\n" % (mod_location.search("namespace")[0].arg))
+        nfd.write("  _yang_namespace = %s\n" % repr(mod_location.search("namespace")[0].arg))
 
         choices = {}
         choice_attrs = []
@@ -969,7 +969,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] += ", extensions=%s" % i["extensions"]
                 if keyval and i["yang_name"] in keyval:
                     class_str["arg"] += ", is_keyval=True"
-                class_str["arg"] += ", namespace='%s'" % i["namespace"]
+                class_str["arg"] += ", namespace=%s" % repr(i["namespace"])
                 class_str["arg"] += ", defining_module='%s'" % i["defining_module"]
                 class_str["arg"] += ", yang_type='%s'" % i["origtype"]
                 class_str["arg"] += ", is_config=%s" % (i["config"] and parent_cfg)
@@ -1074,7 +1074,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             c_str = classes[i["name"]]
             description_str = ""
             if i["description"]:
-                description_str = "\n\n    YANG Description: %s" % i["description"]
+                description_str = "\n\n    YANG Description: %s" % triple_quotable(i["description"])
             nfd.write(
                 '''
   def _get_%s(self):
@@ -1136,7 +1136,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                         else i["origtype"]
                     ),
                     c_str["type"],
-                    c_str["arg"],
+                    triple_quotable(c_str["arg"]),
                 )
             )
             nfd.write("    self.__%s = t\n" % (i["name"]))
@@ -1202,6 +1202,11 @@ def inherited_number(et, keyword, name):
     return numbers[name]
 
 
+def triple_quotable(text):
+    # The text as it is to be written in a string between triple quotes.
+    return text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
+
+
 def class_map_name(et):
     # The name under which the type that a type statement refers to is to be found.
     typedef = getattr(et, "i_typedef", None)
-- 
2.43.0


From ba1ead14a9e7eab7fa8613fe3ce5b0363649b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 38/76] fix: accept ranges and lengths over several lines and
 of min or max alone

---
 pyangbind/plugin/pybind.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 4aa1bc7..6ba3429 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1207,6 +1207,19 @@ def triple_quotable(text):
     return text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
 
 
+def range_parts(et, arg):
+    # The parts of a range or length. On their own, min and max are the bounds of
+    # the type that is restricted.
+    parts = ["".join(part.split()) for part in arg.split("|")]
+    for i, part in enumerate(parts):
+        if part in ["min", "max"]:
+            spec = et.i_type_spec
+            while not hasattr(spec, part):
+                spec = spec.base
+            parts[i] = str(getattr(spec, part))
+    return parts
+
+
 def class_map_name(et):
     # The name under which the type that a type statement refers to is to be found.
     typedef = getattr(et, "i_typedef", None)
@@ -1232,18 +1245,12 @@ def build_elemtype(ctx, et, prefix=False):
         patterns = [i.arg for i in et.search("pattern")]
         restrictions["pattern"] = patterns[0] if len(patterns) == 1 else patterns
 
+    # Complex ranges and lengths are separated by pipes
     if length_stmt:
-        if "|" in length_stmt.arg:
-            restrictions["length"] = [i.replace(" ", "") for i in length_stmt.arg.split("|")]
-        else:
-            restrictions["length"] = [length_stmt.arg]
+        restrictions["length"] = range_parts(et, length_stmt.arg)
 
     if range_stmt:
-        # Complex ranges are separated by pipes
-        if "|" in range_stmt.arg:
-            restrictions["range"] = [i.replace(" ", "") for i in range_stmt.arg.split("|")]
-        else:
-            restrictions["range"] = [range_stmt.arg]
+        restrictions["range"] = range_parts(et, range_stmt.arg)
 
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
-- 
2.43.0


From fbf9bd39acefc8862539ab8cf2e7a7ac5b067611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 39/76] fix: resolve min and max alone through every base type

---
 pyangbind/plugin/pybind.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 6ba3429..3d96421 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1212,11 +1212,10 @@ def range_parts(et, arg):
     # the type that is restricted.
     parts = ["".join(part.split()) for part in arg.split("|")]
     for i, part in enumerate(parts):
-        if part in ["min", "max"]:
-            spec = et.i_type_spec
-            while not hasattr(spec, part):
-                spec = spec.base
-            parts[i] = str(getattr(spec, part))
+        spec = et.i_type_spec
+        while parts[i] in ["min", "max"] and spec is not None:
+            parts[i] = str(getattr(spec, parts[i], parts[i]))
+            spec = getattr(spec, "base", None)
     return parts
 
 
-- 
2.43.0


From 75d13fb42cf948415356dcc98bc9dff4ba51768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 40/76] fix: build modules that pyang has only warnings about

---
 pyangbind/plugin/pybind.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 3d96421..9efdd17 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -30,7 +30,7 @@ import os
 import sys
 from collections import OrderedDict
 
-from pyang import plugin, statements
+from pyang import error, plugin, statements
 
 import pyangbind.helpers.misc as misc_help
 from pyangbind.helpers.identity import IdentityStore
@@ -294,12 +294,12 @@ def build_pybind(ctx, modules, fd):
     pyang_called_modules = module_d.keys()
 
     # Bail if there are pyang errors, since this certainly means that the
-    # pyangbind output will fail - unless these are solely due to imports that
-    # we provided but then unused.
+    # pyangbind output will fail - unless these are solely warnings, such as
+    # those for imports that we provided but then unused.
     if len(ctx.errors):
         for e in ctx.errors:
             print("INFO: encountered %s" % str(e))
-            if not e[1] in ["UNUSED_IMPORT", "PATTERN_ERROR"]:
+            if not (e[1] == "PATTERN_ERROR" or error.is_warning(error.err_level(e[1]))):
                 sys.stderr.write("FATAL: pyangbind cannot build module that pyang" + " has found errors with.\n")
                 sys.exit(127)
 
-- 
2.43.0


From 52fe58373d3f6ea745713fcd97faeb7d2f9d63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 41/76] fix: extend a leaf-list with all of the values or none

---
 pyangbind/lib/yangtypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 0b46708..17985bc 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -496,6 +496,11 @@ def TypedListType(*args, **kwargs):
             if not self._unique or val not in self._list:
                 self._list.append(val)
 
+        def extend(self, values):
+            # Either all of the values are added, or none of them
+            for val in [self.check(v) for v in values]:
+                self.append(val)
+
         def __str__(self):
             return str(self._list)
 
-- 
2.43.0


From eeb4a77b1f67f209f4ee6022422e1058b17e649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 42/76] fix: serialise lists whose keys are decimals

---
 pyangbind/lib/serialise.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index e81bf16..273ee09 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -77,13 +77,16 @@ class YangDataSerialiser(object):
         nd = {}
         if isinstance(d, OrderedDict) or isinstance(d, dict):
             index = 0
-            for k in d:
-                if isinstance(d[k], dict) or isinstance(d[k], OrderedDict):
-                    nd[k] = self.preprocess_element(d[k])
+            for k, v in d.items():
+                if isinstance(k, Decimal):
+                    # the key of a list entry, which JSON can only have as a string
+                    k = str(k)
+                if isinstance(v, dict) or isinstance(v, OrderedDict):
+                    nd[k] = self.preprocess_element(v)
                     if getattr(d, "_user_ordered", False):
                         nd[k]["__yang_order"] = index
                 else:
-                    nd[k] = self.default(d[k])
+                    nd[k] = self.default(v)
                 # if we wanted to do this as per draft-ietf-netmod-yang-metadata
                 # then the encoding is like this
                 # if not "@%s" % k in nd:
-- 
2.43.0


From 41ec144ee025e256a5828bfd3013237bfff83831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 43/76] fix: take any default of a union that YANG allows

The default of a typedef of a union whose members are typedefs stopped the
build or looped for ever, and get() did not show a default of a union that is
0, false or empty.
---
 pyangbind/lib/base.py      |  2 +-
 pyangbind/plugin/pybind.py | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index 5853f33..e62b3bb 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -86,7 +86,7 @@ class PybindBase(object):
                 # this is an attribute that does not have get()
                 # method
                 if filter is False and not element._changed() and not element._present() is True:
-                    if element._default is not False and element._default:
+                    if element._default is not False:
                         d[element_id] = element._default
                     else:
                         d[element_id] = element
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 9efdd17..01f0801 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1419,17 +1419,18 @@ def find_absolute_default_type(default_type, default_value, elemname):
         return default_type
 
     for i in default_type:
-        if not i[1]["base_type"]:
-            test_type = class_map[i[1]["parent_type"]]
-        else:
-            test_type = i[1]
         try:
+            if not i[1]["base_type"]:
+                test_type = class_map[i[1]["parent_type"]]
+            else:
+                test_type = i[1]
             test_type["pytype"](default_value)
-            default_type = test_type
-            break
-        except (ValueError, TypeError):
+            return find_absolute_default_type(test_type, default_value, elemname)
+        except (KeyError, ValueError, TypeError, ArithmeticError):
             pass
-    return find_absolute_default_type(default_type, default_value, elemname)
+    # no member is known to accept the value without knowing the restrictions
+    # that the member has, which are only known when the class is created.
+    return class_map["string"]
 
 
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
@@ -1664,9 +1665,10 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                                 to_visit.extend(tmp_class_map[check]["parent_type"])
                             else:
                                 to_visit.append(tmp_class_map[check]["parent_type"])
-                default_type = tmp_class_map[checked.pop()]
-                if not default_type["base_type"]:
+                base_types = [i for i in checked if tmp_class_map[i].get("base_type")]
+                if not base_types:
                     raise TypeError("default type was not a base type")
+                default_type = tmp_class_map[base_types.pop()]
                 if default_type is tmp_class_map["bits"]:
                     # only the type of the element knows its bits
                     default_type = elemtype
-- 
2.43.0


From e6c2712b9b28617f5d30e4461c629eadaedf22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 44/76] fix: inherit the config of a choice

---
 pyangbind/plugin/pybind.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 01f0801..b0f58fd 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -633,6 +633,9 @@ def get_children_elements(
 
     for ch in i_children:
         if ch.keyword == "choice":
+            # What is in a choice inherits its config
+            choice_cfg = ch.search_one("config")
+            choice_cfg = parent_cfg and (class_bool_map[choice_cfg.arg] if choice_cfg is not None else True)
             # These are cases
             for sub_choice_ch in ch.i_children:
                 get_children_elements(
@@ -644,7 +647,7 @@ def get_children_elements(
                     elements,
                     imports,
                     path=path,
-                    parent_cfg=parent_cfg,
+                    parent_cfg=choice_cfg,
                     choice=(ch.arg, sub_choice_ch.arg) + ((choice,) if choice else ()),
                     register_paths=register_paths,
                 )
@@ -1510,7 +1513,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             )
 
             elemconfigdef = element.search_one("config")
-            elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+            elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
             elemdict = {
                 "name": safe_name(element.arg),
@@ -1680,7 +1683,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             default_type = default_type["native_type"]
 
         elemconfigdef = element.search_one("config")
-        elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+        elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
         elemname = safe_name(element.arg)
 
-- 
2.43.0


From ec84f9851409e78296a10b2fe03b63f26bdb9c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 45/76] fix: qualify an identity with the name of its module,
 however it was set

The IETF formats took a value with an import prefix as if it had none, and keys
were loaded with the name of the module.
---
 pyangbind/lib/serialise.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 273ee09..57295e9 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -244,15 +244,14 @@ class IETFYangDataSerialiser(YangDataSerialiser):
         return str(obj)
 
     def yangt_identityref(self, obj, defining_module):
+        # the value may have been set with any of the prefixes that its module
+        # is imported with
+        name = str(obj).split(":")[-1]
         try:
             emod = obj._enumeration_dict[obj]["@module"]
-            if emod != defining_module:
-                # if not already prefixed with the type namespace
-                if not obj.startswith("%s:" % emod):
-                    return "%s:%s" % (emod, obj)
         except KeyError:
-            pass
-        return str(obj)
+            return str(obj)
+        return name if emod == defining_module else "%s:%s" % (emod, name)
 
     def yangt_decimal(self, obj):
         # the canonical form has no trailing zeros, but at least one digit
@@ -471,6 +470,17 @@ def make_generate_ietf_tree(yname_ns_func):
     return generate_ietf_tree
 
 
+def unqualified_key(list_obj, key, value):
+    """
+    The value of a key in a document, without the module's name if it is that
+    of an identity, as this is not part of the values that are loaded.
+    """
+    if ":" in str(value):
+        if getattr(list_obj._new_item(), "_get_%s" % key)()._yang_type == "identityref":
+            return value.split(":", 1)[-1]
+    return value
+
+
 class pybindIETFXMLDecoder(object):
     """
     IETF XML decoder for pybind object tree deserialisation.
@@ -535,7 +545,7 @@ class pybindIETFXMLDecoder(object):
                 key_parts = []
                 add_kwargs = {}
                 for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = child[ykv].text or ""
+                    add_kwargs[pkv] = unqualified_key(chobj, pkv, child[ykv].text or "")
                     key_parts.append(add_kwargs[pkv])
                 key_str = " ".join(map(str, key_parts))
                 if key_str not in chobj:
@@ -823,15 +833,15 @@ class pybindJSONDecoder(object):
                             keystr = ""
                             kwargs = {}
                             for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
-                                kwargs[pkv] = elem[ykv]
-                                keystr += "%s " % elem[ykv]
+                                kwargs[pkv] = unqualified_key(this_attr, pkv, elem[ykv])
+                                keystr += "%s " % kwargs[pkv]
                             keystr = keystr.rstrip(" ")
                             if keystr not in this_attr:
                                 nobj = this_attr.add(**kwargs)
                             else:
                                 nobj = this_attr[keystr]
                         else:
-                            k = elem[this_attr._yang_keys]
+                            k = unqualified_key(this_attr, this_attr._keyval, elem[this_attr._yang_keys])
                             if k not in this_attr:
                                 nobj = this_attr.add(k)
                             else:
-- 
2.43.0


From d6d340aef381642bc558192931a7427084c2819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 46/76] fix: declare the prefixes of identities where XML uses
 them

---
 pyangbind/lib/serialise.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 57295e9..4078fb1 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -345,33 +345,34 @@ class pybindIETFXMLEncoder(object):
         """Map the IETF structured, and value-processed, object tree into an lxml objectify object"""
         doc = pybindIETFXMLEncoder.EMF(namespace=module_namespace)(module_name)
 
+        def sub(parent, k, nsmap, text=None):
+            # an element that is created in its place keeps the prefixes that its
+            # text uses, appending it to the parent drops those it has no need of
+            el = etree.SubElement(parent, "{%s}%s" % (nsmap[None], k), nsmap=nsmap)
+            if text is not None:
+                el._setText(text)
+            return el
+
         def aux(parent, root):
             for k, v in root.items():
                 k, nsmap = k
-                E = pybindIETFXMLEncoder.EMF(nsmap=dict(nsmap))
+                nsmap = dict(nsmap)
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i).lower() if isinstance(i, bool) else str(i))
-                        parent.append(el)
+                        sub(parent, k, nsmap, str(i).lower() if isinstance(i, bool) else str(i))
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
                     for i in v:
-                        el = E(k)
-                        parent.append(el)
-                        aux(el, i)
+                        aux(sub(parent, k, nsmap), i)
                 elif isinstance(v, dict):
-                    el = E(k)
-                    parent.append(el)
-                    aux(el, v)
+                    aux(sub(parent, k, nsmap), v)
                 elif v is None:
-                    el = E(k)
-                    parent.append(el)
+                    sub(parent, k, nsmap)
                 elif isinstance(v, bool):
-                    _v = str(v).lower()
-                    parent.append(E(k, _v))
+                    sub(parent, k, nsmap, str(v).lower())
                 else:
-                    parent.append(E(k, str(v)))
+                    sub(parent, k, nsmap, str(v))
 
         aux(doc, tree)
         return doc
-- 
2.43.0


From c90839871e88afc611ec81f45ed23e047c064b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 47/76] fix: build the restrictions of a type once

Making the bounds of a restricted type for each value, and with them those of
every type that it is derived from, took time exponential in the number of
typedefs.
---
 pyangbind/lib/yangtypes.py | 43 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 17985bc..6759b8d 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -206,6 +206,10 @@ def RestrictedClassType(*args, **kwargs):
     else:
         restricted_class_hint = [current_restricted_class_type]
 
+    # the restrictions are the same for every instance, and making the bounds of
+    # each anew would do so for those of every enclosed base_type, too.
+    built_restrictions = {}
+
     class RestrictedClass(base_type):
         """
         A class that restricts the base_type class with a new function that the
@@ -234,6 +238,30 @@ def RestrictedClassType(*args, **kwargs):
                 super(RestrictedClass, self).__init__()
 
         def __new__(self, *args, **kwargs):
+            if not built_restrictions:
+                self.__build_restrictions()
+                built = ("_restriction_dict", "_restriction_tests", "_enumeration_dict")
+                built_restrictions.update({i: self.__dict__[i] for i in built if i in self.__dict__})
+            for i, value in built_restrictions.items():
+                setattr(self, i, value)
+
+            # Every restriction applies, and the enclosed base_type (which may
+            # itself be a restricted class) checks its own when it is created.
+            if len(args):
+                try:
+                    val = base_type(args[0])
+                except (TypeError, ArithmeticError):
+                    raise ValueError("%s is not a valid value for a restricted type" % str(args[0]))
+                if issubclass(base_type, int) and isinstance(args[0], (float, Decimal)) and val != args[0]:
+                    raise ValueError("%s is not an integer" % args[0])
+                for test in self._restriction_tests:
+                    if not test(val):
+                        raise ValueError("%s does not match a restricted type" % str(args[0]))
+
+            return base_type.__new__(self, *args, **kwargs)
+
+        @classmethod
+        def __build_restrictions(self):
             self._restriction_dict = restriction_dict
             self._restriction_tests = []
 
@@ -356,21 +384,6 @@ def RestrictedClassType(*args, **kwargs):
                 else:
                     raise TypeError("unsupported restriction type")
 
-            # Every restriction applies, and the enclosed base_type (which may
-            # itself be a restricted class) checks its own when it is created.
-            if len(args):
-                try:
-                    val = base_type(args[0])
-                except (TypeError, ArithmeticError):
-                    raise ValueError("%s is not a valid value for a restricted type" % str(args[0]))
-                if issubclass(base_type, int) and isinstance(args[0], (float, Decimal)) and val != args[0]:
-                    raise ValueError("%s is not an integer" % args[0])
-                for test in self._restriction_tests:
-                    if not test(val):
-                        raise ValueError("%s does not match a restricted type" % str(args[0]))
-
-            return base_type.__new__(self, *args, **kwargs)
-
         def __check(self, v):
             """
             Run the _restriction_test static method against the argument v,
-- 
2.43.0


From c7d6d0260d8669b8bb90dec70dc5f605e15a2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 48/76] fix: tell apart choices that have the same name

---
 pyangbind/plugin/pybind.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b0f58fd..4f6d534 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -629,15 +629,20 @@ def get_children_elements(
     # It treats 'choice' children, which have elements in its cases.
     # It extends the list of elements and imports as childs are inspected.
     # The choice handed down is (choice, case), followed by the choice that this
-    # one is a case of, if any.
+    # one is a case of, if any. Other modules, and other cases, may have a choice
+    # or a case of the same name, hence both are identified by more than that.
 
     for ch in i_children:
         if ch.keyword == "choice":
             # What is in a choice inherits its config
             choice_cfg = ch.search_one("config")
             choice_cfg = parent_cfg and (class_bool_map[choice_cfg.arg] if choice_cfg is not None else True)
+            choice_id = "%s:%s" % (ch.main_module().arg, ch.arg)
+            if choice:
+                choice_id = "%s/%s/%s" % (choice[0], choice[1], choice_id)
             # These are cases
             for sub_choice_ch in ch.i_children:
+                case_id = "%s:%s" % (sub_choice_ch.main_module().arg, sub_choice_ch.arg)
                 get_children_elements(
                     ctx,
                     fd,
@@ -648,7 +653,7 @@ def get_children_elements(
                     imports,
                     path=path,
                     parent_cfg=choice_cfg,
-                    choice=(ch.arg, sub_choice_ch.arg) + ((choice,) if choice else ()),
+                    choice=(choice_id, case_id) + ((choice,) if choice else ()),
                     register_paths=register_paths,
                 )
         else:
-- 
2.43.0


From b9d7f4b8b2c247cbffdd8063faf613b10077c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 49/76] fix: skip subtrees in IETF JSON and within lists

---
 pyangbind/lib/pybindJSON.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index cf0bfd8..cd19e0c 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -28,7 +28,27 @@ from pyangbind.lib.serialise import pybindIETFJSONEncoder, pybindJSONDecoder, py
 
 
 def remove_path(tree, path):
+    if isinstance(tree, list):
+        # the entries of a list, in IETF JSON
+        for entry in tree:
+            remove_path(entry, list(path))
+        return tree
+    if not isinstance(tree, dict):
+        return tree
+    if hasattr(tree, "_user_ordered"):
+        # the entries of a list
+        if path[0] not in tree:
+            for entry in tree.values():
+                remove_path(entry, list(path))
+            return tree
+
     this_part = path.pop(0)
+    if this_part not in tree:
+        # IETF JSON qualifies names with the module that they are of
+        for name in tree:
+            if isinstance(name, str) and name.split(":")[-1] == this_part:
+                this_part = name
+                break
     if len(path) == 0:
         try:
             del tree[this_part]
-- 
2.43.0


From b1915700174680e95315b02f7c7fe9cfeec63f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 50/76] fix: select by the nodes that another module adds

---
 pyangbind/lib/pybindJSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index cd19e0c..8bc2002 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -118,7 +118,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
         if len(key) == 1:
             return unresolved_dict[key[0]]
         current = key.pop(0)
-        return lookup_subdict(dictionary[current], key)
+        return lookup_subdict(unresolved_dict[current], key)
 
     if not isinstance(skip_subtrees, list):
         raise AttributeError("the subtrees to be skipped should be a list")
-- 
2.43.0


From c34284f7acfc5ac496838de26e9cdd67f527c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 51/76] fix: keep the file when the tree cannot be written to
 it

---
 pyangbind/lib/pybindJSON.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index 8bc2002..9a1d166 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -178,9 +178,10 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
 
 
 def dump(obj, fn, indent=4, filter=True, skip_subtrees=[], mode="default"):
+    text = dumps(obj, indent=indent, filter=filter, skip_subtrees=skip_subtrees, mode=mode)
     try:
         fh = open(fn, "w")
     except IOError as m:
         raise pybindJSONIOError("could not open file for writing: %s" % m)
-    fh.write(dumps(obj, indent=indent, filter=filter, skip_subtrees=skip_subtrees, mode=mode))
+    fh.write(text)
     fh.close()
-- 
2.43.0


From 9421ef6b20c6856b7219a3d9f898da21ba1646ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 52/76] fix: encode the entries of a list that is serialised by
 itself

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 4078fb1..de3affb 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -96,6 +96,9 @@ class YangDataSerialiser(object):
                 # some elements that do not really exist - there is a need to
                 # exclude all elements that begin with "@"
                 index += 1
+        elif isinstance(d, list):
+            # the entries of a list that is serialised by itself
+            nd = [self.preprocess_element(i) if isinstance(i, dict) else i for i in d]
         else:
             nd = d
         return nd
-- 
2.43.0


From a63aaa0c2a3fa718ccd909d6183c6aa8f6178160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 53/76] fix: names with a dot in the predicates of a path

---
 pyangbind/lib/xpathhelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 562b7f5..27313e9 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -107,7 +107,7 @@ class FakeRoot(PybindBase):
 class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(\[(?P<args>(?:'[^']*'|\"[^\"]*\"|[^\]])+)\])+$")
     _arg_re = regex.compile(
-        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
+        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_\.:]+)([ ]+)?"
         + r"=([ ]+)?(?:'(?P<arg>[^']*)'|\"(?P<arg>[^\"]*)\"|(?P<arg>[^ '\"]+))([ ]+)?"
         + "(?P<remainder>.*)",
         flags=regex.DOTALL,
-- 
2.43.0


From 60bf4bc1725682ef4ea462798c7eaaede4a93eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 54/76] fix: refer to list entries by the values of their keys,
 in any form

---
 pyangbind/lib/yangtypes.py | 53 +++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6759b8d..984d320 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -141,6 +141,13 @@ def safe_name(arg):
     return arg
 
 
+def key_text(value):
+    """
+    The text that stands for the value of a key leaf.
+    """
+    return base64.b64encode(value).decode() if isinstance(value, bytes) else str(value)
+
+
 def RestrictedPrecisionDecimalType(*args, **kwargs):
     """
     Function to return a new type that is based on decimal.Decimal with
@@ -647,12 +654,37 @@ def YANGListType(*args, **kwargs):
             """
             Return the key that the entry referred to by k is stored with.
             """
+            # bits cannot be the key of a dictionary, nor bytes that of a document
+            if isinstance(k, (set, bytes)):
+                k = key_text(k)
             if k in self._members:
                 return k
-            return self._key_index.get(str(k), k)
+            if str(k) in self._key_index:
+                return self._key_index[str(k)]
+            return self._key_index.get(self._value_key(k), k)
+
+        def _value_key(self, k):
+            """
+            Return what the entry referred to by k is indexed by, where the values of
+            its keys may be given in another form (e.g. 1.0 and 1.00).
+            """
+            if not self._keyval or not len(self._members):
+                return None
+            keys = [safe_name(i) for i in self._keyval.split(" ")]
+            values = [k] if len(keys) == 1 else str(k).split(" ")
+            entry = next(iter(self._members.values()))
+            if len(keys) != len(values) or all(getattr(entry, "_get_%s" % i)()._yang_type == "string" for i in keys):
+                return None
+            entry = self._new_item()
+            try:
+                for key, value in zip(keys, values):
+                    getattr(entry, "_set_%s" % key)(value, load=True)
+            except (ValueError, TypeError):
+                return None
+            return self._index_key(entry)
 
         def _index_key(self, entry):
-            return " ".join(str(getattr(entry, "_get_%s" % safe_name(i))()) for i in self._keyval.split(" "))
+            return " ".join(key_text(getattr(entry, "_get_%s" % safe_name(i))()) for i in self._keyval.split(" "))
 
         def __setitem__(self, k, v):
             self.__set(_k=k, _v=v)
@@ -716,8 +748,9 @@ def YANGListType(*args, **kwargs):
                         path_keystring = "["
                         for kv in keys:
                             kv_obj = getattr(tmp, kv)
-                            quote = '"' if "'" in str(keydict[kv]) else "'"
-                            path_keystring += "%s=%s%s%s " % (kv_obj.yang_name(), quote, keydict[kv], quote)
+                            kv_text = key_text(keydict[kv])
+                            quote = '"' if "'" in kv_text else "'"
+                            path_keystring += "%s=%s%s%s " % (kv_obj.yang_name(), quote, kv_text, quote)
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
@@ -728,7 +761,7 @@ def YANGListType(*args, **kwargs):
                     if self._key_index.get(self._index_key(tmp), k) != k:
                         k = self._key_index[self._index_key(tmp)]
                         if v is None:
-                            raise KeyError("%s is already defined as a list entry" % k)
+                            raise KeyError("%s is already defined as a list entry" % (k,))
 
                     if not update:
                         tmp = YANGDynClass(
@@ -824,7 +857,7 @@ def YANGListType(*args, **kwargs):
                         raise AttributeError(
                             "Keyword list add function must have all " + "keys specified - cannot find %s" % m
                         )
-                    k += "%s " % kwargs[kn]
+                    k += "%s " % key_text(kwargs[kn])
                 k = k[:-1]
             else:
                 k = None
@@ -838,7 +871,7 @@ def YANGListType(*args, **kwargs):
                     kv = getattr(obj, "_get_%s" % safe_name(k), None)
                     if kv is None:
                         raise KeyError("Invalid key attribute specified for object")
-                    ks += "%s " % str(kv())
+                    ks += "%s " % key_text(kv())
                 return ks.rstrip(" ")
             else:
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
@@ -867,12 +900,12 @@ def YANGListType(*args, **kwargs):
             (k, keyargs) = self._generate_key(*args, **kwargs)
 
             if k in self:
-                raise KeyError("%s is already defined as a list entry" % k)
+                raise KeyError("%s is already defined as a list entry" % (k,))
             if self._keyval and keyargs is None:
                 if k is None:
                     raise KeyError("a list with a key value must have a key specified")
                 self.__set(_k=k)
-                return self._members[k]
+                return self[k]
             elif self._keyval and keyargs is not None:
                 keyargs["_python_key"] = k
                 keyargs["_named_set"] = True
@@ -900,7 +933,7 @@ def YANGListType(*args, **kwargs):
                 keyparts = [self._keyval]
             for kn in keyparts:
                 try:
-                    keystr += "%s " % kwargs[kn]
+                    keystr += "%s " % key_text(kwargs[kn])
                 except KeyError:
                     raise KeyError("Must specify all keys to retrieve a list entry")
             keystr = keystr[:-1]
-- 
2.43.0


From 720e27b346ba55275c0e7a36308b9c41b475a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 55/76] fix: strings in paths end with the quote they start
 with

---
 pyangbind/lib/xpathhelper.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 27313e9..0b9e810 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -126,16 +126,18 @@ class YANGPathHelper(PybindXpathHelper):
         c = 0
         parts = []
         buf = ""
-        in_qstr, in_attr = False, False
+        in_qstr, in_attr = None, False
         while c < len(path):
-            if path[c] == "/" and not in_qstr and not in_attr:
+            if in_qstr:
+                # a string ends with the quote that it starts with
+                if path[c] == in_qstr:
+                    in_qstr = None
+                buf += path[c]
+            elif path[c] == "/" and not in_attr:
                 parts.append(buf)
                 buf = ""
-            elif path[c] == '"' and in_qstr:
-                in_qstr = False
-                buf += path[c]
-            elif path[c] == '"':
-                in_qstr = True
+            elif path[c] in ("'", '"'):
+                in_qstr = path[c]
                 buf += path[c]
             elif path[c] == "[":
                 in_attr = True
-- 
2.43.0


From 17db6534d03b6eb912483770f8f31d1c6cbed1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 56/76] fix: references in unions

---
 pyangbind/plugin/pybind.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 4f6d534..a9c8412 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -184,6 +184,9 @@ class_map = {
 INT_RANGE_TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
 
 # The types that are built-in to YANG
+# Stands for the name of the leaf in a type that needs to know it
+LEAF_NAME = "<leaf name>"
+
 YANG_BUILTIN_TYPES = list(class_map.keys()) + ["container", "list", "rpc", "notification", "leafref"]
 
 
@@ -957,6 +960,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             else:
                 class_str["arg"] += ", is_leaf=True"
             if class_str["arg"]:
+                class_str["arg"] = class_str["arg"].replace(LEAF_NAME, "'%s'" % i["yang_name"])
                 class_str["arg"] += ', yang_name="%s"' % i["yang_name"]
                 class_str["arg"] += ", parent=self"
                 if i["choice"]:
@@ -1330,6 +1334,18 @@ def build_elemtype(ctx, et, prefix=False):
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
                 elemtype_s[1]["yang_type"] = class_map_name(uniontype)
+                if elemtype_s[0] == "leafref":
+                    # The reference is created with the leaf that has the type
+                    elemtype_s[1]["native_type"] = (
+                        "%s(referenced_path='%s', caller=self._path() + [%s], "
+                        "path_helper=self._path_helper, require_instance=%s)"
+                        % (
+                            elemtype_s[1]["native_type"],
+                            elemtype_s[1]["referenced_path"],
+                            LEAF_NAME,
+                            elemtype_s[1]["require_instance"],
+                        )
+                    )
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
-- 
2.43.0


From b114a03166ba660f771cbff0c4def04eb182bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 57/76] fix: references take the value of a node that is set,
 in any form

---
 pyangbind/lib/yangtypes.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 984d320..3465885 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1316,6 +1316,22 @@ def YANGDynClass(*args, **kwargs):
     return YANGBaseClass(*args, **kwargs)
 
 
+def refers_to(target, value):
+    """
+    Return whether value, in any of the forms that its type allows, is that of target.
+    """
+    if hasattr(target, "_referenced_object"):
+        target = target._get()
+    if hasattr(value, "_referenced_object"):
+        value = value._get()
+    if str(target) == str(value) and not isinstance(target, bytes):
+        return True
+    try:
+        return getattr(target, "_base_type", type(target))(value) == target
+    except Exception:
+        return False
+
+
 def ReferenceType(*args, **kwargs):
     """
     A type which based on a path provided acts as a leafref.
@@ -1397,7 +1413,7 @@ def ReferenceType(*args, **kwargs):
                         if len(path_chk) == 1 and is_yang_leaflist(path_chk[0]):
                             index = 0
                             for i in path_chk[0]:
-                                if str(i) == str(value):
+                                if refers_to(i, value):
                                     found = True
                                     self._referenced_object = path_chk[0][index]
                                     break
@@ -1405,7 +1421,8 @@ def ReferenceType(*args, **kwargs):
                         else:
                             found = False
                             for i in path_chk:
-                                if str(i) == str(value):
+                                # a leaf that is not set has no value to refer to
+                                if (i._changed() or i._default is not False) and refers_to(i, value):
                                     found = True
                                     self._referenced_object = i
 
-- 
2.43.0


From ebc6b021a00addbabd1b55376e398f0c54990b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 58/76] fix: a reference to a leaf of list entries is none to
 the only entry there is

---
 pyangbind/lib/yangtypes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3465885..04a790b 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1384,7 +1384,12 @@ def ReferenceType(*args, **kwargs):
                 # key value of a list (if it is then this is something that can be
                 # externally referenced) and 2) check that this is not
                 # a list itself (including a leaf-list)
-                if len(path_chk) == 1 and not path_chk[0]._is_keyval and not is_yang_list(path_chk[0]):
+                if (
+                    len(path_chk) == 1
+                    and not path_chk[0]._is_keyval
+                    and not is_yang_list(path_chk[0])
+                    and self._names_one(path_chk[0])
+                ):
                     # we are not checking whether this leaf exists, but rather
                     # this is a pointer to some other value.
                     path_parts = self._referenced_path.split("/")
@@ -1438,6 +1443,16 @@ def ReferenceType(*args, **kwargs):
                 # No path helper and a value is set, just act like the referenced type
                 self._referenced_object = value
 
+        def _names_one(self, target):
+            """
+            Return whether the path names the target, rather than the leaf of that name
+            in each entry of a list, which may happen to have one entry.
+            """
+            if "[" in self._referenced_path:
+                return True
+            path, caller = target._path(), self._caller
+            return not any("[" in path[i] and path[: i + 1] != caller[: i + 1] for i in range(len(path)))
+
         def _get_ptr(self):
             if self._ptr:
                 ptr = self._path_helper.get(self._referenced_path, caller=self._caller)
-- 
2.43.0


From 0f168846609b2eade4d70c81da911d78c508e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 59/76] fix: compare references by their values

---
 pyangbind/lib/yangtypes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 04a790b..3f83b23 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1374,6 +1374,10 @@ def ReferenceType(*args, **kwargs):
             else:
                 value = None
 
+            if hasattr(value, "_referenced_object"):
+                # another reference stands for the value that it has
+                value = value._get()
+
             if self._path_helper and value is not None:
                 path_chk = self._path_helper.get(self._referenced_path, caller=self._caller)
 
@@ -1475,6 +1479,16 @@ def ReferenceType(*args, **kwargs):
                 return str(self._referenced_object)
             return str(self._get_ptr())
 
+        # References are the same if their values are, as in a leaf-list of them
+        def __eq__(self, other):
+            if self is other:
+                return True
+            value = self._get()
+            return value is not False and value is not None and refers_to(self, other)
+
+        def __hash__(self):
+            return hash(str(self))
+
     return type(ReferencePathType(*args, **kwargs))
 
 
-- 
2.43.0


From c94cd0274cf53570df3b9bdbf1e770b98d30a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 60/76] fix: the values of leaf-lists of references are unique

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index a9c8412..7f71972 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -926,7 +926,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 # class to properly initialise.
                 class_str["name"] = "__%s" % (i["name"])
                 class_str["type"] = "YANGDynClass"
-                class_str["arg"] = "base=%s" % i["type"]["native_type"][0]
+                class_str["arg"] = "unique=True, base=%s" % i["type"]["native_type"][0]
                 class_str["arg"] += "(allowed_type=%s(referenced_path='%s'," % (
                     i["type"]["native_type"][1]["native_type"],
                     i["type"]["native_type"][1]["referenced_path"],
-- 
2.43.0


From b272ef18400e11325dcd5d277e3b20f0b74554ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 61/76] fix: a leaf that is not set equals nothing in the
 predicates of paths

---
 pyangbind/lib/xpathhelper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 0b9e810..163ed91 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -190,6 +190,10 @@ class YANGPathHelper(PybindXpathHelper):
                                 "XPATH specified a current() expression that " + "returned a non-unique list"
                             )
                         v = resolved_current_attr[0]
+                        if getattr(v, "_is_leaf", False) and not v._changed() and v._default is False:
+                            # a leaf that is not set has no value to be equal to
+                            epath += "false() and "
+                            continue
                     quote = '"' if "'" in str(v) else "'"
                     epath += "@%s=%s%s%s " % (k, quote, v, quote)
                     if mode == "search":
-- 
2.43.0


From 2b0c3e0ca0a01cd265b329d0807b3c666487e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 62/76] fix: references that are not checked hold different
 values as such

---
 pyangbind/lib/yangtypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3f83b23..6a47c59 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1326,8 +1326,12 @@ def refers_to(target, value):
         value = value._get()
     if str(target) == str(value) and not isinstance(target, bytes):
         return True
+    target_type = getattr(target, "_base_type", type(target))
+    if target_type in (bool, int, float):
+        # a value that was not checked, there is no YANG type for it
+        return target == value
     try:
-        return getattr(target, "_base_type", type(target))(value) == target
+        return target_type(value) == target
     except Exception:
         return False
 
-- 
2.43.0


From 1de822c1c1947a1549a0c6a48941b5d45de060e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 63/76] fix: classes of different containers and lists have
 different names

---
 pyangbind/plugin/pybind.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 7f71972..f293eec 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -614,6 +614,18 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["quote_default"] = default[1]
 
 
+def class_name(ctx, element, module, path):
+    # The name of the class of an element within a single file of bindings. The
+    # paths of different elements can be the same when written with underscores
+    # (/a/b and /a-b), the names of their classes are not.
+    name = "yc_%s_%s_%s" % (safe_name(element.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
+    if not hasattr(ctx, "pybind_class_names"):
+        ctx.pybind_class_names = {}
+    while ctx.pybind_class_names.setdefault(name, (module.arg, path)) != (module.arg, path):
+        name += "_"
+    return name
+
+
 def get_children_elements(
     ctx,
     fd,
@@ -779,8 +791,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         else:
             if not path == "":
                 nfd.write(
-                    "class yc_%s_%s_%s(PybindBase):\n"
-                    % (safe_name(parent.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
+                    "class %s(PybindBase):\n"
+                    % class_name(ctx, parent, module, path)
                 )
             else:
                 nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
@@ -1566,11 +1578,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-                elemdict["type"] = "yc_%s_%s_%s" % (
-                    safe_name(element.arg),
-                    safe_name(module.arg),
-                    safe_name(path.replace("/", "_")),
-                )
+                elemdict["type"] = class_name(ctx, element, module, path)
 
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
-- 
2.43.0


From 32aa29c034282d5fb80f97755f3dc31c6e631bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 64/76] fix: split classes whose names collide with others or
 with the code's own

---
 pyangbind/plugin/pybind.py | 99 +++++++++++++++++++++++++++++---------
 1 file changed, 75 insertions(+), 24 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f293eec..d9d08ef 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -183,6 +183,35 @@ class_map = {
 # list determins types that should be allowed to have a "range" argument.
 INT_RANGE_TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
 
+# The names that the code of all classes uses
+RESERVED_NAMES = [
+    "AttributeError",
+    "Decimal",
+    "OrderedDict",
+    "PybindBase",
+    "ReferenceType",
+    "RestrictedClassType",
+    "RestrictedPrecisionDecimalType",
+    "TypeError",
+    "TypedListType",
+    "ValueError",
+    "YANGBinary",
+    "YANGBitsType",
+    "YANGBool",
+    "YANGDynClass",
+    "YANGListType",
+    "attrgetter",
+    "dict",
+    "getattr",
+    "hasattr",
+    "int",
+    "isinstance",
+    "len",
+    "long",
+    "str",
+    "xpathhelper",
+]
+
 # The types that are built-in to YANG
 # Stands for the name of the leaf in a type that needs to know it
 LEAF_NAME = "<leaf name>"
@@ -403,6 +432,11 @@ long = int
 
     # Iterate through the tree which pyang has built, solely for the modules
     # that pyang was asked to build
+    ctx.pybind_module_classes = []
+    for modname in pyang_called_modules:
+        for m in [module_d[modname]] + module_d[modname].search("include"):
+            ctx.pybind_module_classes.append(unreserved_name(m.arg))
+
     for modname in pyang_called_modules:
         module = module_d[modname]
         mods = [module]
@@ -626,6 +660,37 @@ def class_name(ctx, element, module, path):
     return name
 
 
+def unreserved_name(name):
+    # The name of a class or package, which is not one of those that the code
+    # generated for the class needs.
+    name = safe_name(name)
+    return name + "_" if name in RESERVED_NAMES else name
+
+
+def package_path(ctx, module, path, parent=None):
+    # The names of the packages that lead to the class of the element at the path,
+    # when classes are split. The package is within that of the parent, and its
+    # name must be neither that of a class there nor that of another package, such
+    # as that of an element of the same name in another module.
+    if not hasattr(ctx, "pybind_packages"):
+        ctx.pybind_packages = {"paths": {}, "owners": {}}
+    if path == "":
+        return ()
+    # A submodule has the same elements as its module.
+    belongs_to = module.search_one("belongs-to")
+    owner = (module.arg if belongs_to is None else belongs_to.arg, path)
+    if (module.arg, path) not in ctx.pybind_packages["paths"]:
+        above, _, name = path.rpartition("/")
+        packages = package_path(ctx, module, above)
+        name = unreserved_name(name)
+        if name in (ctx.pybind_module_classes if not packages else [unreserved_name(parent.arg)] if parent else []):
+            name += "_"
+        while ctx.pybind_packages["owners"].setdefault(packages + (name,), owner) != owner:
+            name += "_"
+        ctx.pybind_packages["paths"][(module.arg, path)] = packages + (name,)
+    return ctx.pybind_packages["paths"][(module.arg, path)]
+
+
 def get_children_elements(
     ctx,
     fd,
@@ -687,7 +752,7 @@ def get_children_elements(
                 if (hasattr(ch, "i_children") and len(ch.i_children)) or (
                     ctx.opts.generate_presence and ch.search_one("presence")
                 ):
-                    imports.append(ch.arg)
+                    imports.append(package_path(ctx, module, path + "/" + ch.arg, parent)[-1])
 
 
 def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, choice=False, register_paths=True):
@@ -708,19 +773,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         if path == "":
             fpath = ctx.pybind_split_basepath + "/__init__.py"
         else:
-            pparts = path.split("/")
-            npath = "/"
-
-            # Check that we don't have the problem of containers that are nested
-            # with the same name
-            for i in range(1, len(pparts)):
-                if i > 0 and pparts[i] == pparts[i - 1]:
-                    pname = safe_name(pparts[i]) + "_"
-                elif i == 1 and pparts[i] == module.arg:
-                    pname = safe_name(pparts[i]) + "_"
-                else:
-                    pname = safe_name(pparts[i])
-                npath += pname + "/"
+            npath = "/%s/" % "/".join(package_path(ctx, module, path))
 
             bpath = ctx.pybind_split_basepath + npath
             if not os.path.exists(bpath):
@@ -778,16 +831,15 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     if ctx.opts.split_class_dir:
         if len(import_req):
             for im in import_req:
-                if im == parent.arg:
-                    im += "_"
                 # Relative import in PY2/PY3 compatible style
-                nfd.write("from . import {}\n".format(safe_name(im)))
+                # (the methods of the class have local variables of some names)
+                nfd.write("from . import {0}\nyc_{0} = {0}\n".format(im))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
     if parent.keyword in ["container", "module", "list", "submodule", "input", "output", "rpc", "notification"]:
         if ctx.opts.split_class_dir:
-            nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
+            nfd.write("class %s(PybindBase):\n" % unreserved_name(parent.arg))
         else:
             if not path == "":
                 nfd.write(
@@ -795,7 +847,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     % class_name(ctx, parent, module, path)
                 )
             else:
-                nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
+                nfd.write("class %s(PybindBase):\n" % unreserved_name(parent.arg))
 
         # If the container is actually a list, then determine what the key value
         # is and store this such that we can give a hint.
@@ -1534,6 +1586,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
         # Create an element for a container.
         has_presence = True if element.search_one("presence") is not None else False
         if element.i_children or (ctx.opts.generate_presence and has_presence):
+            if ctx.opts.split_class_dir:
+                package_path(ctx, module, npath, parent)
             get_children(
                 ctx,
                 fd,
@@ -1570,11 +1624,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # If we were dealing with split classes, then rather than naming the
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
-                if element.arg == parent.arg:
-                    modname = safe_name(element.arg) + "_"
-                else:
-                    modname = safe_name(element.arg)
-                elemdict["type"] = "%s.%s" % (modname, safe_name(element.arg))
+                modname = package_path(ctx, module, npath, parent)[-1]
+                elemdict["type"] = "yc_%s.%s" % (modname, unreserved_name(element.arg))
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-- 
2.43.0


From a82ba1f4792976f37f769b8d8bbf9c80ec2c9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 65/76] fix: messages are not written among the bindings

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index d9d08ef..ae82679 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -330,7 +330,7 @@ def build_pybind(ctx, modules, fd):
     # those for imports that we provided but then unused.
     if len(ctx.errors):
         for e in ctx.errors:
-            print("INFO: encountered %s" % str(e))
+            sys.stderr.write("INFO: encountered %s\n" % str(e))
             if not (e[1] == "PATTERN_ERROR" or error.is_warning(error.err_level(e[1]))):
                 sys.stderr.write("FATAL: pyangbind cannot build module that pyang" + " has found errors with.\n")
                 sys.exit(127)
-- 
2.43.0


From 20978aecfcc4e7edd6997e10537aff8828d60e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 66/76] fix: extension methods with the names of what
 containers have already

---
 pyangbind/lib/yangtypes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6a47c59..f1cda8f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1082,6 +1082,7 @@ def YANGDynClass(*args, **kwargs):
         "_presence",
     ]
 
+    extmethod_slots = []
     if extmethods:
         rpath = None
         if supplied_register_path is not None:
@@ -1093,7 +1094,7 @@ def YANGDynClass(*args, **kwargs):
         chk_path = "/" + "/".join(remove_path_attributes(rpath))
         if chk_path in extmethods:
             for method in [i for i in dir(extmethods[chk_path]) if not i.startswith("_")]:
-                clsslots.append("_" + method)
+                extmethod_slots.append("_" + method)
 
     class YANGBaseClass(base_type):
         # we only create slots for things that are restricted
@@ -1313,6 +1314,11 @@ def YANGDynClass(*args, **kwargs):
 
             return self._cpresent
 
+    # What objects of the class have already is not overwritten by extension
+    # methods, and hence needs no slot.
+    extmethod_slots = [slot for slot in extmethod_slots if not hasattr(YANGBaseClass, slot)]
+    if extmethod_slots and "__slots__" in YANGBaseClass.__dict__:
+        return type("YANGBaseClass", (YANGBaseClass,), {"__slots__": tuple(extmethod_slots)})(*args, **kwargs)
     return YANGBaseClass(*args, **kwargs)
 
 
-- 
2.43.0


From d6a4195cc6be03d7c3e10baba46e34510e0fc3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 67/76] fix: an extension method named method does not hide the
 others

---
 pyangbind/lib/yangtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f1cda8f..f5579ca 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1148,8 +1148,7 @@ def YANGDynClass(*args, **kwargs):
                             continue
                         member = getattr(self._extmethods[chk_path], method)
                         if hasattr(member, "__call__"):
-                            if not hasattr(self, "_method"):
-                                setattr(self, "_" + method, self.__generate_extmethod(member))
+                            setattr(self, "_" + method, self.__generate_extmethod(member))
 
             if default is not False:
                 self._default = default
-- 
2.43.0


From dde465801b895d498f42020d448d5f1baecbd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 68/76] fix: entries of the lists of RPCs and notifications are
 not registered

---
 pyangbind/lib/yangtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f5579ca..b22fd2d 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -772,6 +772,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_paths=self._register_paths,
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
                         )
@@ -787,6 +788,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_paths=self._register_paths,
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
@@ -806,7 +808,7 @@ def YANGListType(*args, **kwargs):
                     self._set()
 
                 except ValueError as m:
-                    if self._path_helper and k not in self._members and tmp._parent is not None:
+                    if self._path_helper and self._register_paths and k not in self._members and tmp._parent is not None:
                         self._path_helper.unregister(tmp._path())
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
@@ -818,6 +820,7 @@ def YANGListType(*args, **kwargs):
                     choice=choice,
                     is_container="container",
                     path_helper=path_helper,
+                    register_paths=self._register_paths,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                 )
-- 
2.43.0


From 93c8f5e20f7afc7dcdd627886ddefbe7b19d9a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 69/76] fix: RPCs, inputs, outputs and notifications are
 containers

---
 pyangbind/plugin/pybind.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index ae82679..ac0cf21 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1602,10 +1602,14 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             elemconfigdef = element.search_one("config")
             elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
+            # RPCs, what goes into them and out of them, and notifications act as
+            # containers do.
+            elemclass = "list" if element.keyword == "list" else "container"
+
             elemdict = {
                 "name": safe_name(element.arg),
-                "origtype": element.keyword,
-                "class": element.keyword,
+                "origtype": elemclass,
+                "class": elemclass,
                 "path": safe_name(npath),
                 "config": elemconfig,
                 "description": elemdescr,
-- 
2.43.0


From b263a5b0574cd5cf923ab494cb585b9fd1e55d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:38 +0000
Subject: [PATCH 70/76] fix: a JSON list entry with another key leaf than the
 key it is under is refused

---
 pyangbind/lib/serialise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index de3affb..b6ba597 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -731,6 +731,10 @@ class pybindJSONDecoder(object):
                 # simply get the set method and then set the value of the leaf
                 set_method = getattr(obj, "_set_%s" % safe_name(key))
                 set_method(d[key], load=True)
+                if getattr(chobj, "_is_keyval", False) is True and chobj._changed() and child() != chobj:
+                    # the entry stays under the key that it was added with
+                    set_method(chobj, load=True)
+                    raise pybindJSONDecodeError("Key leaf %s does not match the key of its list entry" % key)
         return obj
 
     @staticmethod
-- 
2.43.0


From 5d7969c050f72198b4cfca77128c3382c237c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:38 +0000
Subject: [PATCH 71/76] fix: containers without children are containers to the
 serialisers

---
 pyangbind/plugin/pybind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index ac0cf21..40fc52d 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -880,6 +880,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     elements_str = ""
     if len(elements) == 0:
         nfd.write("  __slots__ = ()\n\n")
+        nfd.write("  _pybind_generated_by = 'container'\n\n")
         nfd.write("  _pyangbind_elements = {}")
     else:
         # We want to prevent a user from creating new attributes on a class that
-- 
2.43.0


From 422ca6c1dc102b2553398861e080937836c9c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 72/76] fix: values of empty and identityref are serialised as
 such behind typedefs

---
 pyangbind/plugin/pybind.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 40fc52d..7e1c2e0 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -524,6 +524,13 @@ def referenced_typedefs(et):
     return typedefs
 
 
+def builtin_type(et):
+    # The name of the built-in type that a type is derived from.
+    while getattr(et, "i_typedef", None) is not None:
+        et = et.i_typedef.search_one("type")
+    return et.arg
+
+
 def identity_name(module, name):
     # The name that the type which has an identity as its base has in the class_map.
     return "identity %s:%s" % (module, name)
@@ -1048,7 +1055,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] += ", is_keyval=True"
                 class_str["arg"] += ", namespace=%s" % repr(i["namespace"])
                 class_str["arg"] += ", defining_module='%s'" % i["defining_module"]
-                class_str["arg"] += ", yang_type='%s'" % i["origtype"]
+                class_str["arg"] += ", yang_type='%s'" % i["yang_type"]
                 class_str["arg"] += ", is_config=%s" % (i["config"] and parent_cfg)
                 classes[i["name"]] = class_str
 
@@ -1610,6 +1617,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             elemdict = {
                 "name": safe_name(element.arg),
                 "origtype": elemclass,
+                "yang_type": elemclass,
                 "class": elemclass,
                 "path": safe_name(npath),
                 "config": elemconfig,
@@ -1810,12 +1818,19 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 elemtype = {"class": cls, "native_type": ("UnionType", elemtype)}
             elemntype = elemtype["native_type"]
 
+        # Values of these types are serialised in their own way, by whatever name
+        # the type is used.
+        yang_type = element.search_one("type").arg
+        if builtin_type(element.search_one("type")) in ("empty", "identityref"):
+            yang_type = builtin_type(element.search_one("type"))
+
         # Build the dictionary for the element with the relevant meta-data
         # specified within it.
         elemdict = {
             "name": elemname,
             "type": elemntype,
             "origtype": element.search_one("type").arg,
+            "yang_type": yang_type,
             "path": safe_name(path),
             "class": cls,
             "default": elemdefault,
-- 
2.43.0


From ed7c517fe1ef63afd5de63fc1f314bc66da8d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:25 +0000
Subject: [PATCH 73/76] fix: a reference to an identity takes it with any of
 its prefixes

---
 pyangbind/lib/yangtypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index b22fd2d..12f1bab 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1334,6 +1334,11 @@ def refers_to(target, value):
         value = value._get()
     if str(target) == str(value) and not isinstance(target, bytes):
         return True
+    identities = getattr(target, "_enumeration_dict", {})
+    if "@module" in identities.get(str(target), {}) and str(value) in identities:
+        # the same identity may be given with any of the prefixes of its module
+        module, name = identities[str(target)]["@module"], str(target).split(":")[-1]
+        return identities[str(value)]["@module"] == module and str(value).split(":")[-1] == name
     target_type = getattr(target, "_base_type", type(target))
     if target_type in (bool, int, float):
         # a value that was not checked, there is no YANG type for it
-- 
2.43.0


From 40ffba8b0693faa0b8483b28c15a0bdac89f58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 74/76] fix: references to identities are written as identities
 of their own module

---
 pyangbind/lib/serialise.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index b6ba597..a4556ef 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -67,6 +67,19 @@ class SerialisedTypedList(list):
     pass
 
 
+def referenced_value(obj):
+    """
+    The value that a reference stands for, that of anything else is the object itself.
+    """
+    while hasattr(obj, "_referenced_object"):
+        obj = obj._get()
+    return obj
+
+
+def is_identity(obj):
+    return "@module" in getattr(obj, "_enumeration_dict", {}).get(str(obj), {})
+
+
 class YangDataSerialiser(object):
     """
     This class encapsulates the logic to parse the object tree and generate appropriate
@@ -122,6 +135,13 @@ class YangDataSerialiser(object):
             elif pybc == "TypedListType":
                 return self.yangt_typed_list(obj)
 
+        # A reference to an identity is written as one of its own module
+        if hasattr(obj, "_referenced_object") and is_identity(referenced_value(obj)):
+            try:
+                return self.yangt_identityref(referenced_value(obj), getattr(obj, "_defining_module", None))
+            except UnmappedItem:
+                pass
+
         # Map based on YANG type
         if orig_yangt in ["leafref"]:
             return self.default(obj._get()) if hasattr(obj, "_get") else str(obj)
@@ -230,12 +250,16 @@ class YangDataSerialiser(object):
         return bool(obj)
 
     def yangt_typed_list(self, obj):
-        if obj._yang_type == "identityref":
+        return [self.typed_list_member(i, obj) for i in obj]
+
+    def typed_list_member(self, member, obj):
+        value = referenced_value(member)
+        if obj._yang_type == "identityref" or (value is not member and is_identity(value)):
             try:
-                return [self.yangt_identityref(i, obj._defining_module) for i in obj]
+                return self.yangt_identityref(value, obj._defining_module)
             except UnmappedItem:
                 pass
-        return [self.default(i) for i in obj]
+        return self.default(member)
 
 
 class IETFYangDataSerialiser(YangDataSerialiser):
@@ -384,9 +408,12 @@ class pybindIETFXMLEncoder(object):
     def yname_ns_func(parent_namespace, element, yname):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
-        if element._yang_type == "identityref" and element._changed():
-            # configured identityref (i.e. points to a valid identity)
+        # configured identityref (i.e. points to a valid identity), or a reference to one
+        if element._changed() and hasattr(element, "_yang_type"):
             for value in element if isinstance(element, MutableSequence) else [element]:
+                reference, value = value, referenced_value(value)
+                if not is_identity(value) or (reference is value and element._yang_type != "identityref"):
+                    continue
                 ns = (value._enumeration_dict[value]["@module"], value._enumeration_dict[value]["@namespace"])
                 if ns not in ns_map:
                     ns_map.append(ns)
-- 
2.43.0


From 553d7239678874614ba65d2f756ecf42f9e25b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 75/76] fix: identities of one name in several modules are told
 apart when documents are loaded

---
 pyangbind/lib/serialise.py | 52 ++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index a4556ef..ae02c61 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -501,14 +501,35 @@ def make_generate_ietf_tree(yname_ns_func):
     return generate_ietf_tree
 
 
-def unqualified_key(list_obj, key, value):
+def identity_value(obj, value, namespaces=None):
     """
-    The value of a key in a document, without the module's name if it is that
-    of an identity, as this is not part of the values that are loaded.
+    The value of an identityref in a document as obj takes it: the name of the
+    identity, with that of its module only where several modules have identities
+    of the name. In XML, namespaces is the map of the prefixes that are in scope.
     """
-    if ":" in str(value):
-        if getattr(list_obj._new_item(), "_get_%s" % key)()._yang_type == "identityref":
-            return value.split(":", 1)[-1]
+    prefix, _, name = value.rpartition(":")
+    if namespaces is None:
+        attribute, where = "@module", prefix or obj._defining_module
+    else:
+        attribute, where = "@namespace", namespaces.get(prefix or None)
+    identities = getattr(obj, "_enumeration_dict", None)
+    if identities is None:
+        identities = getattr(getattr(obj, "_allowed_type", [None])[0], "_enumeration_dict", {})
+    named = {i["@module"]: i for k, i in identities.items() if k.rpartition(":")[2] == name}
+    if len(named) > 1:
+        for module, identity in named.items():
+            if identity[attribute] == where:
+                return "%s:%s" % (module, name)
+    return name
+
+
+def unqualified_key(list_obj, key, value, namespaces=None):
+    """
+    The value of a key in a document, if it is an identity as the list takes it.
+    """
+    key_obj = getattr(list_obj._new_item(), "_get_%s" % key)()
+    if key_obj._yang_type == "identityref":
+        return identity_value(key_obj, value, namespaces)
     return value
 
 
@@ -576,7 +597,7 @@ class pybindIETFXMLDecoder(object):
                 key_parts = []
                 add_kwargs = {}
                 for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = unqualified_key(chobj, pkv, child[ykv].text or "")
+                    add_kwargs[pkv] = unqualified_key(chobj, pkv, child[ykv].text or "", child[ykv].nsmap)
                     key_parts.append(add_kwargs[pkv])
                 key_str = " ".join(map(str, key_parts))
                 if key_str not in chobj:
@@ -592,7 +613,7 @@ class pybindIETFXMLDecoder(object):
             elif hasattr(chobj, "_pybind_generated_by") and chobj._pybind_generated_by == "TypedListType":
                 val = child.text or ""
                 if chobj._yang_type == "identityref":
-                    val = val.split(":", 1)[-1]
+                    val = identity_value(chobj, val, child.nsmap)
                 chobj.append(val)
 
             else:
@@ -608,8 +629,7 @@ class pybindIETFXMLDecoder(object):
                         raise ValueError("Invalid value for empty in input XML - key: %s, got: %s" % (ykey, val))
 
                 elif chobj._yang_type == "identityref":
-                    if ":" in val:
-                        _, val = val.split(":", 1)
+                    val = identity_value(chobj, val, child.nsmap)
 
                 if val is not None:
                     set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
@@ -919,13 +939,13 @@ class pybindJSONDecoder(object):
 
                     if chk._yang_type == "identityref":
                         # identityref values in IETF JSON may contain their module name, as a prefix,
-                        # but we don't build identities with these as valid values. If this is the
-                        # case then re-write the value to just be the name of the identity that we
-                        # should know about.
+                        # which is only needed where several modules have identities of the name. If
+                        # this is not the case then re-write the value to just be the name of the
+                        # identity that we should know about.
                         if isinstance(val, list):
-                            val = [i.split(":", 1)[-1] for i in val]
-                        elif ":" in val:
-                            _, val = val.split(":", 1)
+                            val = [identity_value(chk, i) for i in val]
+                        else:
+                            val = identity_value(chk, val)
 
                     if val is not None:
                         set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
-- 
2.43.0


From 7c0009e328e923b18694b0248ff8e8b2d5a43bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 76/76] fix: the canonical form of decimal64 zero has no sign

---
 pyangbind/lib/serialise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index ae02c61..885222e 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -282,8 +282,8 @@ class IETFYangDataSerialiser(YangDataSerialiser):
 
     def yangt_decimal(self, obj):
         # the canonical form has no trailing zeros, but at least one digit
-        # on each side of the decimal point
-        val = format(obj.normalize(), "f")
+        # on each side of the decimal point, and zero has no sign
+        val = format((obj if obj else abs(obj)).normalize(), "f")
         return val if "." in val else val + ".0"
 
     def yangt_empty(self, obj):
-- 
2.43.0

