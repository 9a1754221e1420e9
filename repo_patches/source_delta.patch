From a57752a33ad2516a6d053f48ad2185b092c3d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 01/54] fix: renaming a path-step's child no longer modifies
 the shared mappings

---
 pandalone/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..2f9d9f8 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1093,6 +1093,8 @@ class Pstep(str):
                 if alias is not None:
                     pmod = self._pmod
                     if pmod:
+                        # Mappings may be shared, do not modify them in place.
+                        self._pmod = pmod = copy(pmod)
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-- 
2.43.0


From bd6298f63e0407d2dec850132f6fabf5e7d39296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:18 +0000
Subject: [PATCH 02/54] fix: a path-step assigned as its own child shared its
 children with the copy

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 2f9d9f8..0f13e13 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -878,7 +878,7 @@ def _clone_attrs(obj):
     """Clone deeply any collection attributes of the passed-in object."""
     attrs = vars(obj).copy()
     ccsteps = attrs.get("_csteps", None)
-    if ccsteps:
+    if ccsteps is not None:
         attrs["_csteps"] = ccsteps.copy()
     ctags = attrs["_tags"]
     if ctags:
-- 
2.43.0


From 4843c286e6f8168a0bab06d0464b2fd4868a165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 03/54] fix: building a Pandel no longer modifies or shares the
 submodels given

---
 pandalone/pandata.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..b4e702b 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -477,6 +477,17 @@ def PandelVisitor(
     return ValidatorClass(schema, resolver=resolver, format_checker=format_checker)
 
 
+def _clone_branch(val):
+    """Clone recursively any mappings, sequences and pandas/numpy instances of a model-branch."""
+    if isinstance(val, (NDFrame, np.ndarray)):
+        return val.copy()
+    if isinstance(val, cabc.Mapping):
+        return {k: _clone_branch(v) for k, v in val.items()}
+    if isinstance(val, cabc.Sequence) and not isinstance(val, (str, bytes)):
+        return [_clone_branch(v) for v in val]
+    return val
+
+
 class Pandel(object):
 
     """
@@ -880,7 +891,7 @@ class Pandel(object):
         """' Recursively merge b into a, cloning both. """
 
         if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
-            a = pd.DataFrame() if a is None else pd.DataFrame(a)
+            a = pd.DataFrame() if a is None else pd.DataFrame(_clone_branch(a))
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
 
             a.update(b)  # , 'outer') NOT IMPL YET
@@ -897,6 +908,9 @@ class Pandel(object):
             a = {} if a is None else {**a}
             b = {} if b is None else {**b}
 
+            for key in a:
+                if key not in b:
+                    a[key] = _clone_branch(a[key])
             for key in b:
                 b_val = b[key]
                 if key in a:
@@ -904,7 +918,7 @@ class Pandel(object):
                         a[key], b_val, "%s/%s" % (path, key)
                     )
                 else:
-                    val = b_val
+                    val = _clone_branch(b_val)
                 a[key] = val
 
         elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
@@ -940,7 +954,8 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # Validate a clone, because validation may set defaults or remove nulls.
+            for err in self._validate_json_model(schema, _clone_branch(mdl)):
                 yield err
 
     def _merge(self):
-- 
2.43.0


From fa1b8a856491a8298fc55722ac3e59b558724396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 04/54] fix: a non-sequence overrides a sequence when merging
 submodels

---
 pandalone/pandata.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index b4e702b..9e08b78 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -477,13 +477,18 @@ def PandelVisitor(
     return ValidatorClass(schema, resolver=resolver, format_checker=format_checker)
 
 
+def _is_list(val):
+    """True for any sequence other than strings."""
+    return isinstance(val, cabc.Sequence) and not isinstance(val, (str, bytes))
+
+
 def _clone_branch(val):
     """Clone recursively any mappings, sequences and pandas/numpy instances of a model-branch."""
     if isinstance(val, (NDFrame, np.ndarray)):
         return val.copy()
     if isinstance(val, cabc.Mapping):
         return {k: _clone_branch(v) for k, v in val.items()}
-    if isinstance(val, cabc.Sequence) and not isinstance(val, (str, bytes)):
+    if _is_list(val):
         return [_clone_branch(v) for v in val]
     return val
 
@@ -921,9 +926,7 @@ class Pandel(object):
                     val = _clone_branch(b_val)
                 a[key] = val
 
-        elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
-            isinstance(b, cabc.Sequence) and not isinstance(b, str)
-        ):
+        elif _is_list(b) or (b is None and _is_list(a)):
             if b is not None:
                 val = b
             else:
-- 
2.43.0


From 4a1be63ade7c6b36e6825393f21c821e91a1d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 05/54] fix: Pandel.get() returns the value found

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 9e08b78..676d0a3 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1059,7 +1059,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From a7a4cbc6de1b26fbeeaf3d0c9bcba64a91b363d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 06/54] fix: set_jsonpointer() fails cleanly on empty pointers,
 negative indices and unsettable places

---
 pandalone/pandata.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 676d0a3..c696ea5 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1284,6 +1284,10 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError(
+            "Cannot set the whole document with JSON pointer(%r)!" % jsonpointer
+        )
 
     # Will scream if used on 1st iteration.
     #
@@ -1305,7 +1309,7 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
                         % (part, jsonpointer, i)
                     )
                 else:
-                    if part > doclen:
+                    if not 0 <= part <= doclen:
                         raise RefResolutionError(
                             "Index(%s) out of bounds(%i) of (%r)[%i]"
                             % (part, doclen, jsonpointer, i)
@@ -1315,10 +1319,15 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
         except (LookupError):
             break  # Branch-extension needed.
         except (TypeError):  # Maybe indexing a string...
-            ndoc = object_factory()
-            pdoc[ppart] = ndoc
-            doc = ndoc
-            break  # Branch-extension needed.
+            if pdoc is None:
+                raise RefResolutionError(
+                    "Cannot extend document for JSON pointer(%r)@(%s)"
+                    % (jsonpointer, part)
+                )
+            # Branch-extension needed, replacing this value in its parent.
+            doc, part = pdoc, ppart
+            i -= 1
+            break
 
         doc, pdoc, ppart = ndoc, doc, part
     else:
@@ -1339,6 +1348,10 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     # out of range")
     except IndexError:
         doc.append(nbranch)
+    except TypeError as ex:
+        raise RefResolutionError(
+            "Cannot set JSON pointer(%r)@(%s) due to: %s" % (jsonpointer, part, ex)
+        )
 
 
 #    except (IndexError, TypeError) as ex:
-- 
2.43.0


From ac8ba772a5ab7c39db6a6fb07718a39fbec97946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 07/54] fix: the enum rule tells booleans from 0/1 whatever
 their numeric type

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c696ea5..c7729e8 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -306,7 +306,7 @@ def _rule_auto_defaults_properties(
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
     unbool = jsonschema._utils.unbool
-    if instance is 0 or instance is 1:
+    if isinstance(instance, numbers.Number) and (instance == 0 or instance == 1):
         unbooled = unbool(instance)
         if all(unbooled != unbool(each) for each in enums):
             yield ValidationError("%r is not one of %r" % (instance, enums))
-- 
2.43.0


From 09354b828705c08165060b7335612794a6123291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 08/54] fix: JSONCodec encodes newlines of the pickled bytes
 losslessly

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c7729e8..d7c4ff8 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1459,7 +1459,7 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
-- 
2.43.0


From 32244a3fce272197358a3eff3d602561f673e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 09/54] fix: JSONCodec decodes plain JSON other than objects

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index d7c4ff8..1cc554c 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1466,7 +1466,7 @@ class JSONCodec:
     class Decoder(JSONDecoder):
         def decode(self, s):
             o = JSONDecoder.decode(self, s)
-            pickle_str = o.get(JSONCodec._obj, None)
+            pickle_str = o.get(JSONCodec._obj, None) if isinstance(o, dict) else None
             if pickle_str:
                 # file_ver = o[JSONCodec._ver_key]
                 # if file_ver != JSONCodec._ver:
-- 
2.43.0


From 3e151ea1addc7f009cda72ade092a49f6e82b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 10/54] fix: autoDefault & co of a schema apply also when
 disabled in general

---
 pandalone/pandata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 1cc554c..782aec2 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -447,14 +447,13 @@ def PandelVisitor(
     props_rule = validator.VALIDATORS["properties"]
 
     rules = {"additionalProperties": _rule_additionalProperties}
-    if any((auto_default, auto_default_nulls, auto_remove_nulls)):
-        rules["properties"] = fnt.partial(
-            _rule_auto_defaults_properties,
-            original_props_rule=props_rule,
-            auto_default=auto_default,
-            auto_default_nulls=auto_default_nulls,
-            auto_remove_nulls=auto_remove_nulls,
-        )
+    rules["properties"] = fnt.partial(
+        _rule_auto_defaults_properties,
+        original_props_rule=props_rule,
+        auto_default=auto_default,
+        auto_default_nulls=auto_default_nulls,
+        auto_remove_nulls=auto_remove_nulls,
+    )
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     if hasattr(jsonschema._utils, "unbool"):
-- 
2.43.0


From f35a6317e78b0017fb2f6470c3e6a3251f5c0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 11/54] fix: recognise any NaN as null, and testing one-cell
 frames never fails

---
 pandalone/pandata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 782aec2..fb260eb 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -171,14 +171,14 @@ def _is_integer(checker, instance):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
+    if instance is None or (isinstance(instance, float) and instance != instance):
         return True
 
     ## Handle np.arrays's future "bool" behavior.
     #  see https://github.com/numpy/numpy/issues/9583
     #
     try:
-        return instance.size == 1 and np.isnan(instance).all()
+        return bool(instance.size == 1 and np.isnan(np.asarray(instance)).all())
     except Exception:
         pass
 
-- 
2.43.0


From e590195098a74464333c1f1dd22770d3255e0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 12/54] fix: set_jsonpointer() fails cleanly inside arrays

---
 pandalone/pandata.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index fb260eb..a41bb9e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1342,12 +1342,13 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
 
     # Attach new-branch.
     try:
-        doc[part] = nbranch
-    # Inserting last sequence-element raises IndexError("list assignment index
-    # out of range")
-    except IndexError:
-        doc.append(nbranch)
-    except TypeError as ex:
+        try:
+            doc[part] = nbranch
+        # Inserting last sequence-element raises IndexError("list assignment index
+        # out of range")
+        except IndexError:
+            doc.append(nbranch)
+    except (TypeError, AttributeError) as ex:
         raise RefResolutionError(
             "Cannot set JSON pointer(%r)@(%s) due to: %s" % (jsonpointer, part, ex)
         )
-- 
2.43.0


From 5b1eb286a9be4024c6097b7853bcaffbfab22d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 13/54] fix: make_unique_filename() uses the given generator

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..7475b01 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -255,7 +255,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From 875e9346859816104bd1c0929ae3446357b062e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 14/54] fix: ensure_dir_exists() fails when a non-directory
 gets in the way

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 7475b01..8acdf51 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -345,7 +345,7 @@ def ensure_dir_exists(path, mode=0o755):
         try:
             os.makedirs(path, mode=mode)
         except OSError as e:
-            if e.errno != errno.EEXIST:
+            if e.errno != errno.EEXIST or not os.path.isdir(path):
                 raise
     elif not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
-- 
2.43.0


From d6cb3db929de6e288ec1c9443b7c62f1cf48e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 15/54] fix: obj2bool() accepts any true object

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 8acdf51..c7e939e 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -81,7 +81,7 @@ def obj2bool(v):
         >>> obj2bool(None) == obj2bool('') == obj2bool(0) == False
         True
     """
-    return bool(v) and str2bool(v)
+    return str2bool(v) if isinstance(v, str) else bool(v)
 
 
 def is_travis():  # pragma: no cover
-- 
2.43.0


From 38519f7942bfd0a57b9ba2b9cc8c31e7442f01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 16/54] fix: strip the whole UNC-prefix, and add it in front

---
 pandalone/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index c7e939e..c9d1a78 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -168,7 +168,7 @@ def path2urlpath(path):
     import urllib.request as ur
 
     if path.startswith(_unc_prefix):
-        path = path[3:]
+        path = path[len(_unc_prefix) :]
     u = ur.pathname2url(path)
     if _is_dir_regex.search(path) and u[-1] != "/":
         u = u + "/"
@@ -183,7 +183,7 @@ def urlpath2path(url):
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
     if len(p) > 200:
-        p += _unc_prefix
+        p = _unc_prefix + p
     return p
 
 
@@ -213,7 +213,7 @@ def path2url(path, expandvars=False, expanduser=False):
 
         # Trim UNCs, urljoin() makes nonsense, path2urlpath() just fails.
         if path.startswith(_unc_prefix):
-            path = path[3:]
+            path = path[len(_unc_prefix) :]
 
         # UNIXize *safely* and join with base-URL,
         # UNLESS it start with drive-letter (not to assume it as schema).
-- 
2.43.0


From 4e05c495aa69c54171fccdb77837357293df92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 17/54] fix: _remove_vba_modules() removes all the named ones

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2358ab7..ba5ac9e 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -119,7 +119,7 @@ def _remove_vba_modules(xl_vbcs, *mod_names_to_del):
 
     # Comparisons are case-insensitive.
     if mod_names_to_del:
-        mod_names_to_del = map(str.lower, mod_names_to_del)
+        mod_names_to_del = set(map(str.lower, mod_names_to_del))
 
     # Gather all workbook vba-modules.
     xl_mods = [xl_vbc for xl_vbc in xl_vbcs if xl_vbc.Type == XL_TYPE_MODULE]
-- 
2.43.0


From 9a3e5384abeabe473ab435085c65bf7e510233c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 18/54] fix: re-enable excel alerts also when saving fails

---
 pandalone/xlsutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index ba5ac9e..13f6c1d 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -179,13 +179,17 @@ def _save_workbook(xl_workbook, path):
         # directory
         path = os.path.join(os.getcwd(), xl_workbook.Name)
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
     elif path:
         # Save under new name/location
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
 
 
 def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
-- 
2.43.0


From 59c195eb1cd79b013d2a84b3cdf9ea8f6a2d096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 19/54] fix: ensure_file_ext() respects exts given without dot

---
 pandalone/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index c9d1a78..fae2439 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -313,16 +313,21 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
     """
     _, file_ext = os.path.splitext(fname)
 
+    def dotted(e):
+        return e if e.startswith(".") else "." + e
+
     if is_regex:
         ends_with_ext = any(
-            re.match(e + "$", file_ext, re.IGNORECASE) for e in (re.escape(ext),) + exts
+            re.match(e + "$", file_ext, re.IGNORECASE)
+            for e in (re.escape(dotted(ext)),) + exts
         )
     else:
-        file_ext = file_ext.lower()
-        ends_with_ext = any(file_ext.endswith(e.lower()) for e in (ext,) + exts)
+        # Exts may have many dots (eg. `.tar.gz`), hidden-files (eg. `.bar`) have none.
+        name = os.path.basename(fname)[1:].lower()
+        ends_with_ext = any(name.endswith(dotted(e).lower()) for e in (ext,) + exts)
 
     if not ends_with_ext:
-        if fname[-1] == ".":
+        if fname[-1:] == ".":
             fname = fname[:-1]
         if ext[0] == ".":
             ext = ext[1:]
-- 
2.43.0


From 573177a35b5818d78f34052f8cd4ba41c08cf9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 20/54] fix: store original text of quoted xl-refs under the
 right name

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..ffd3c3e 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -477,7 +477,7 @@ def parse_xlref(xlref):
         else:
             if m:
                 res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
+                res["xl_ref"] = xlref
             else:
                 raise ex
 
-- 
2.43.0


From 3a852d5869cb4b131ffad6ff4bf9370d1e662aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 21/54] fix: overlay parsed opts on base ones instead of
 replacing them

---
 pandalone/xleash/_lasso.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..3e38c72 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -156,6 +156,9 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            opts = filled_fields.get("opts")
+            if opts is not None:
+                filled_fields["opts"] = init_lasso.opts.new_child(opts)
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From 0c944fa4895a24a2a92be503b7686a3d30d64b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 22/54] fix: don't consume `lax` from the call-spec of the
 caller

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 3e38c72..234cf61 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From abc39ecf8b4ca6f79193de586c2103f3e56ccedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 23/54] fix: report failures of filters also when verbose

---
 pandalone/xleash/_lasso.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 234cf61..2cce385 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,11 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    try:
+        sig = func and inspect.signature(func)
+    except (TypeError, ValueError):
+        sig = ""
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From 18f023372e574387f3d43d4f90ec82fd82c69647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 24/54] fix: name the edges when capturing a single-edge xl-ref
 fails

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 2cce385..070613a 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -44,7 +44,7 @@ def _Lasso_to_edges_str(lasso):
     nd = lasso.nd_edge if lasso.nd_edge else ""
     s = st if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
-    return s + exp
+    return str(s) + exp
 
 
 class Ranger(object):
-- 
2.43.0


From 83de2d5041cfd63240b0a125b78cf6f3c438c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 25/54] fix: don't hide errors while making the ranger

---
 pandalone/xleash/_lasso.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 070613a..1e50960 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -385,12 +385,12 @@ def lasso(
     if base_opts is None:
         base_opts = get_default_opts()
 
+    ranger = make_default_Ranger(
+        sheets_factory=sheets_factory,
+        base_opts=base_opts,
+        available_filters=available_filters,
+    )
     try:
-        ranger = make_default_Ranger(
-            sheets_factory=sheets_factory,
-            base_opts=base_opts,
-            available_filters=available_filters,
-        )
         lasso = ranger.do_lasso(xlref, **context_kwds)
     finally:
         if factory_is_mine:
-- 
2.43.0


From 6e84e36e632909f7ed0b31dc84ae5b0aea217f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 26/54] fix: SimpleSheetsFactory returns the sibling sheets it
 opens

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..3e44d22 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From 37ee5683d474750fe426e36be5209a51e4c7281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 27/54] fix: decode dates with the epoch of their workbook

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..440f705 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From fe7d951b559c01aa71ca6f962a8dc735e8f0e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:40 +0000
Subject: [PATCH 28/54] fix: lax filters not returning a lasso keep the
 previous one

---
 pandalone/xleash/_lasso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 1e50960..b743395 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -122,11 +122,12 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
+            res = func(self, lasso, *args, **kwds)
+            assert isinstance(res, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
                 func_name,
-                lasso,
+                res,
             )
+            lasso = res
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From 274d2275b17afc291c1cd688a1e5bdaada5c5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:40 +0000
Subject: [PATCH 29/54] fix: refuse negative coordinates beyond the start of
 the sheet

---
 pandalone/xleash/_capture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 190ed8a..925af21 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -270,6 +270,8 @@ def _resolve_coord(cname, cfunc, coord, up_coord, dn_coord, base_coords=None):
             # Resolve negatives as from the end.
             if rcoord < 0:
                 rcoord = dn_coord + rcoord + 1
+                if rcoord < 0:
+                    raise ValueError("Negative-coord beyond the start!")
 
         return rcoord
     except Exception as ex:
-- 
2.43.0


From e0d2a00f8caf1ee0485df9f590b26896948684d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 30/54] fix: element-wise filters advance base-cell in lists
 also with pandas

---
 pandalone/xleash/_filter.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..8a2d67d 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -282,18 +282,21 @@ def run_filter_elementwise(
     def upd_base_coords(elval, cdepth, base_coords, i):
         if base_coords and not isinstance(elval, dict):
             row, col = base_coords
-            try:
-                import pandas as pd
-            except ImportError:
+            if isinstance(elval, list):
                 if cdepth == 0:
                     row += i
                 elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
                     col += i
-                elif isinstance(elval, pd.Series):
-                    row += i
+            else:
+                try:
+                    import pandas as pd
+                except ImportError:
+                    pass
+                else:
+                    if isinstance(elval, pd.DataFrame):
+                        col += i
+                    elif isinstance(elval, pd.Series):
+                        row += i
 
             return row, col
 
-- 
2.43.0


From b013fd16f7ddfeba23865f681662066412e83350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 31/54] fix: read the contents of remote workbooks

---
 pandalone/xleash/io/_xlrd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 440f705..1fadf10 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -235,7 +235,7 @@ class XlrdBackend(ABCBackend):
         return book.sheet_names()
 
     def _open_book(self, url):
-        parts = filename = urlparse(url)
+        parts = urlparse(url)
         ropts = parts.params or {}
         if "logfile" not in ropts:
             ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
@@ -247,8 +247,8 @@ class XlrdBackend(ABCBackend):
             ropts.pop("on_demand", None)
             http_opts = ropts.get("http_opts", {})
             with request.urlopen(url, **http_opts) as response:
-                log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+                log.info("Opening book(%r)...", url)
+                book = xlrd.open_workbook(url, file_contents=response.read(), **ropts)
 
         return book
 
-- 
2.43.0


From 8d4fbf5feaa79015a8f12deb85c7394c371ca39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 32/54] fix: squeeze the trivial dimensions found, all at once

---
 pandalone/xleash/_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 8a2d67d..1de10db 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -112,8 +112,7 @@ def _downdim(values, new_ndim):
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From dc9a018ce459cb4b43fd94e2ff4640e6c929efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 33/54] fix: keep numbers among texts when reshaping values

---
 pandalone/xleash/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 1de10db..322650b 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -157,7 +157,7 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    values = np.asarray(values, dtype=object)
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From 4e5852ac20aadf7ce57cd437c354739614012f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 34/54] fix: array-sheets keep their cells as given

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 3e44d22..98a5d37 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -436,7 +436,7 @@ class ArraySheet(ABCSheet):
     """A sample :class:`ABCSheet` made out of 2D-list or numpy-arrays, for facilitating tests."""
 
     def __init__(self, arr, ids=SheetId("wb", ["sh", 0])):
-        self._arr = np.asarray(arr)
+        self._arr = np.asarray(arr, dtype=object)
         self._ids = ids
 
     def open_sibling_sheet(self, sheet_id):
-- 
2.43.0


From 45ab3ee887ce62f28d13ce43620d669b0787d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:05 +0000
Subject: [PATCH 35/54] fix: parse quoted xl-refs with filters

The closing quote is taken as part of the json-filters, so they failed as
bad JSON before trying without the quotes.
---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index ffd3c3e..b49b926 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -469,7 +469,7 @@ def parse_xlref(xlref):
     """
     try:
         res = _parse_xlref(xlref)
-    except SyntaxError as ex:
+    except (SyntaxError, ValueError) as ex:
         try:
             m = _encase_regex.match(xlref)
         except SyntaxError:
-- 
2.43.0


From a77ebd9e6d75b6ffd9d305f228fecfd38aade3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:37 +0000
Subject: [PATCH 36/54] fix: accessing empty-named path-steps keeps them

---
 pandalone/mappings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 0f13e13..3b1cbb9 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1109,8 +1109,9 @@ class Pstep(str):
             if attr.startswith("_") or attr in _forbidden_pstep_attrs:
                 raise
             csteps = self._csteps
-            child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            if csteps and attr in csteps:
+                return csteps[attr]  # Note that empty-named steps are falsy.
+            return self.__make_cstep(attr)
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From aebf3bc20e0fd35d2052387e7f7af09ad79f6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:37 +0000
Subject: [PATCH 37/54] fix: copy and rename empty-named path-steps

---
 pandalone/mappings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 3b1cbb9..3054c22 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1056,7 +1056,7 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps or isinstance(maps, Pstep):
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
@@ -1098,7 +1098,8 @@ class Pstep(str):
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        maps = self._pmod if existing_cstep is None else existing_cstep
+        csteps[ckey] = child = Pstep(ckey, maps, alias)
 
         return child
 
-- 
2.43.0


From 618bf4b78c3ad8782bb27cc845c111832ed8c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:17 +0000
Subject: [PATCH 38/54] fix: tag also psteps cloned from others

---
 pandalone/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 3054c22..4e8be6e 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1078,6 +1078,8 @@ class Pstep(str):
             "_locked": Pstep.CAN_RELOCATE,
             "_tags": set(tags) if tags else (),
         }
+        if attrs and tags:
+            self._tag(*tags)
 
         return self
 
-- 
2.43.0


From 1e73a4da462dd8750d2adb161cf08bc23e890117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 39/54] fix: look for the packaged VBA modules in the folder
 they are

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 13f6c1d..06e448f 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -271,7 +271,7 @@ def main(*argv):
         if argv[1] == "--pandalone":
             mydir = os.path.dirname(__file__)
             argv = list(argv)
-            argv[1] = os.path.join(mydir, "*.vba")
+            argv[1] = os.path.join(mydir, "excel", "*.vba")
         elif argv[1].startswith("--"):
             exit(
                 "Unknown option(%s)! \n%s"
-- 
2.43.0


From adec5528a6d48c6e6fe633d4dd810417775d782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 40/54] fix: save also when an empty new name is given

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 06e448f..2f76c95 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -204,7 +204,7 @@ def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
                 xl_wb.FullName,
                 new_fname,
             )
-    _save_workbook(xl_wb, new_fname)
+    _save_workbook(xl_wb, new_fname or None)
 
     return new_fname
 
-- 
2.43.0


From dd405318ed59a1ee93187ee5b940ffc2d14904a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:32 +0000
Subject: [PATCH 41/54] fix: absolute paths are resolved in the given root,
 also when empty or a frame

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a41bb9e..e317204 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1248,7 +1248,7 @@ def resolve_path(doc, path, default=_scream, root=None):
 
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return doc if root is None else root
         raise ValueError()
 
     part_resolvers = [
-- 
2.43.0


From 26fc13a1335a492ab503b9339e6143723c689579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 42/54] fix: attributes of nested paths reach their own steps
 when building from data-frames

---
 pandalone/mappings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 4e8be6e..36ccfb4 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1337,7 +1337,9 @@ def pstep_from_df(columns_df, name_col="names"):
     attributes = cdf.columns
     for rows in cdf.itertuples():
         path, *attr_values = rows
-        cstep = getattr(p, path[1:])
+        cstep = p
+        for part in path[1:].split("/"):
+            cstep = getattr(cstep, part)
         for attr, aval in zip(attributes, attr_values):
             setattr(cstep, "_%s" % attr, aval)
 
-- 
2.43.0


From 2fba6cc4c27476baa3d539e19c121208edf87a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 43/54] fix: escape the property-names of the json-paths built
 from schemas

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e317204..e5cd750 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1377,7 +1377,7 @@ def build_all_jsonpaths(schema):
         props = schema.get("properties")
         if props:
             for p, obj in props.items():
-                _visit(obj, path + "/" + p, paths)
+                _visit(obj, path + "/" + escape_jsonpointer_part(p), paths)
         else:
             paths.append(path)
 
-- 
2.43.0


From 98ff36de2afce606c2d17742c2476e0e797bf6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 44/54] fix: allow parentheses within <units>

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e5cd750..cd70dd1 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -44,7 +44,7 @@ _value_with_units_regex = re.compile(
                                             \]
                                             |
                                             <              # units enclosed in <>
-                                                [^)]*
+                                                [^>]*
                                             >
                                         )?                  # end parenthesized-units
                                         \s*$""",
-- 
2.43.0


From 8cdf57b438cd4b8ffa4c1ddb3f7bcb408edb194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 45/54] fix: search for programs ending in .com

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index fae2439..573f32e 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -358,7 +358,7 @@ def ensure_dir_exists(path, mode=0o755):
 
 def py_where(program, path=None):
     # From: http://stackoverflow.com/a/377028/548792
-    winprog_exts = (".bat", "com", ".exe")
+    winprog_exts = (".bat", ".com", ".exe")
 
     def is_exec(fpath):
         return (
-- 
2.43.0


From ef4b98ea006a7422f3d0ab5a3d3617303de68f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:06 +0000
Subject: [PATCH 46/54] fix: `path2url(expanduser=True)` never expanded the
 user's home

---
 pandalone/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 573f32e..f72ab39 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -219,6 +219,8 @@ def path2url(path, expandvars=False, expanduser=False):
         # UNLESS it start with drive-letter (not to assume it as schema).
         #
         path = path.replace("\\", "/")
+        if expanduser:
+            path = osp.expanduser(path).replace("\\", "/")
         m = _file_drive_regex.match(path)
         if m:
             # A pesky Drive-relative path...assume it absolute!
@@ -233,12 +235,8 @@ def path2url(path, expandvars=False, expanduser=False):
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
 
-        # Expand vars, conditionally on remote or local URL.
-        #
         parts = up.urlsplit(path)
         p = parts.path
-        if parts.scheme == "file" and expanduser:
-            p = osp.expanduser(p)
         p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
-- 
2.43.0


From c8edb35b31bb624aa05eaada2469090a01b5902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:06 +0000
Subject: [PATCH 47/54] fix: `path2url()` corrupted remote URLs without a path

---
 pandalone/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index f72ab39..54fa01d 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -237,7 +237,8 @@ def path2url(path, expandvars=False, expanduser=False):
 
         parts = up.urlsplit(path)
         p = parts.path
-        p = normpath(p).replace("\\", "/")
+        if p:
+            p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From 3cb63f6beee4db2717bf5e9e8c6fd00239a1f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:02 +0000
Subject: [PATCH 48/54] fix: the `df` filter failed on empty captures

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 3cd4caa..489da83 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -142,7 +142,7 @@ def _df_filter(
         raise NotImplementedError("Cannot implement args: %s" % invalid_args)
 
     if not data:
-        return pd.DataFrame()
+        return lasso._replace(values=pd.DataFrame())
 
     usecols = _maybe_convert_usecols(usecols)
 
-- 
2.43.0


From ae82949b424dded8014aeeb98ea828072f27f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:02 +0000
Subject: [PATCH 49/54] fix: the `df` filter failed on columns given as letters

---
 pandalone/xleash/_pandas_filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 489da83..e3743a8 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -21,10 +21,10 @@ from pandas.io import parsers as pdparsers
 from . import installed_filters
 
 try:
-    from pandas.io.excel._util import _fill_mi_header, _pop_header_name
+    from pandas.io.excel._util import _fill_mi_header, _pop_header_name, _range2cols
 except ImportError:
     # pandas < 0.25.0 (before summer 2019)
-    from pandas.io.excel import _fill_mi_header, _pop_header_name
+    from pandas.io.excel import _fill_mi_header, _pop_header_name, _range2cols
 
 
 try:
-- 
2.43.0


From 9c68f64f332f8dbb7f9229c51f9145476ec6d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:02 +0000
Subject: [PATCH 50/54] fix: the `df` filter failed on many index columns
 without header

---
 pandalone/xleash/_pandas_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index e3743a8..780c287 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -171,7 +171,9 @@ def _df_filter(
 
     if is_list_like(index_col):
         # forward fill values for MultiIndex index
-        if not is_list_like(header):
+        if header is None:
+            offset = 0
+        elif not is_list_like(header):
             offset = 1 + header
         else:
             offset = 1 + max(header)
-- 
2.43.0


From 8f505e9de034e59c269ad32d22c344af05ca42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:42 +0000
Subject: [PATCH 51/54] fix: name columns beyond ZZ in coords2Cell

---
 pandalone/xleash/_capture.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 925af21..406b4ce 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -22,12 +22,15 @@ from ._parse import Cell
 
 log = logging.getLogger(__name__)
 
-try:
-    from xlrd import colname as xl_colname
 
-    # TODO: Try different backends providing `colname` function.
-except ImportError:
-    log.warning("One of `xlrd`, `...` libraries is needed, will crash later!")
+def xl_colname(colx):
+    """Excel-name of a zero-based column: ``0 --> A``, ``26 --> AA``, ``702 --> AAA``."""
+    name = ""
+    colx += 1
+    while colx:
+        colx, rem = divmod(colx - 1, 26)
+        name = chr(ord("A") + rem) + name
+    return name
 
 
 CHECK_CELLTYPE = False
-- 
2.43.0


From eaeb8e12528b6abee9f5cf9eec708f3269f45189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:37 +0000
Subject: [PATCH 52/54] fix: open remote workbooks whose url has `;params`

---
 pandalone/xleash/io/_xlrd.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 1fadf10..520cb72 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -236,17 +236,13 @@ class XlrdBackend(ABCBackend):
 
     def _open_book(self, url):
         parts = urlparse(url)
-        ropts = parts.params or {}
-        if "logfile" not in ropts:
-            ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
+        ropts = {"logfile": utils.LoggerWriter(log, logging.DEBUG)}
         if parts.scheme == "file":
             path = utils.urlpath2path(parts.path)
             log.info("Opening book(%r)...", path)
             book = xlrd.open_workbook(path, **ropts)
         else:
-            ropts.pop("on_demand", None)
-            http_opts = ropts.get("http_opts", {})
-            with request.urlopen(url, **http_opts) as response:
+            with request.urlopen(url) as response:
                 log.info("Opening book(%r)...", url)
                 book = xlrd.open_workbook(url, file_contents=response.read(), **ropts)
 
-- 
2.43.0


From 131eb90c0be77f2fef432533252d6f65aedda024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:03 +0000
Subject: [PATCH 53/54] fix: list the paths of component path-steps having an
 empty name

---
 pandalone/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/components.py b/pandalone/components.py
index b001d32..d72cd7e 100644
--- a/pandalone/components.py
+++ b/pandalone/components.py
@@ -197,7 +197,7 @@ class FuncComponent(Component):
         self._cfunc(self, *args, **kws)
 
     def _fetch_all_paths(self, pstep):
-        return pstep._paths() if pstep else []
+        return pstep._paths() if pstep is not None else []
 
     def pinp(self, path=None):
         """The suggested :class:`Pstep` for cfunc to use to access inputs."""
-- 
2.43.0


From 303f18c96fa0a08acdb6546ac8be4c236401325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:53 +0000
Subject: [PATCH 54/54] fix: build path-steps from tables with unnamed rows

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 36ccfb4..7d1b0c8 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1332,7 +1332,7 @@ def pstep_from_df(columns_df, name_col="names"):
                 /B        bar        []
                 ========  =========  ===================
     """
-    p = pmods_from_tuples(zip(columns_df.index, columns_df[name_col])).step()
+    p = pmods_from_tuples(list(zip(columns_df.index, columns_df[name_col]))).step()
     cdf = columns_df.drop(name_col, axis=1, errors="ignore")
     attributes = cdf.columns
     for rows in cdf.itertuples():
-- 
2.43.0

