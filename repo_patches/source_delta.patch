From 8526186277ea0b016b9a05639aad33d167718aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 01/95] fix: compare character lengths in VarCompatObj

char_kind_check returned True instead of the standardized form its callers
compare, so character(len=10) was accepted as compatible with character(len=20).
---
 scripts/var_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..17d8977 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -1345,7 +1345,7 @@ class VarCompatObj:
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
                 if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                    kind_ok = kentries[0].lower()
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From b3776326bded0bc51275f9c5ca78cb4b443cd197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 02/95] fix: index the target array in DimTransform with its
 own dimension positions

forward_transform builds var2's index list and reverse_transform var1's, but
each looked up the horizontal and vertical positions of the other variable, so
the offset and the vertical flip went to the wrong index of permuted arrays.
---
 scripts/var_props.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 17d8977..c444e34 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -422,19 +422,19 @@ class DimTransform:
         v2_indices = [indices[x] for x in self.__forward_perm]
         if adjust_hdim is not None:
             if self.__v1_hloop and (not self.__v2_hloop):
-                hdim = v2_indices[self.__forward_hdim_index]
+                hdim = v2_indices[self.__reverse_hdim_index]
                 adj_str = f"{hdim}+{adjust_hdim}-1"
-                v2_indices[self.__forward_hdim_index] = adj_str
+                v2_indices[self.__reverse_hdim_index] = adj_str
             elif self.__v2_hloop and (not self.__v1_hloop):
-                hdim = v2_indices[self.__forward_hdim_index]
+                hdim = v2_indices[self.__reverse_hdim_index]
                 adj_str = f"{hdim}-{adjust_hdim}+1"
-                v2_indices[self.__forward_hdim_index] = adj_str
+                v2_indices[self.__reverse_hdim_index] = adj_str
             # end if
         # end if
         if flip_vdim is not None:
-            vdim = v2_indices[self.__forward_vdim_index]
+            vdim = v2_indices[self.__reverse_vdim_index]
             adj_str = f"{flip_vdim}-{vdim}+1"
-            v2_indices[self.__forward_vdim_index] = adj_str
+            v2_indices[self.__reverse_vdim_index] = adj_str
         # end if
         return f"{var2_lname}({','.join(v2_indices)})"
 
@@ -489,19 +489,19 @@ class DimTransform:
         v1_indices = [indices[x] for x in self.__reverse_perm]
         if adjust_hdim is not None:
             if self.__v1_hloop and (not self.__v2_hloop):
-                hdim = v1_indices[self.__reverse_hdim_index]
+                hdim = v1_indices[self.__forward_hdim_index]
                 adj_str = f"{hdim}-{adjust_hdim}+1"
-                v1_indices[self.__reverse_hdim_index] = adj_str
+                v1_indices[self.__forward_hdim_index] = adj_str
             elif self.__v2_hloop and (not self.__v1_hloop):
-                hdim = v1_indices[self.__reverse_hdim_index]
+                hdim = v1_indices[self.__forward_hdim_index]
                 adj_str = f"{hdim}+{adjust_hdim}-1"
-                v1_indices[self.__reverse_hdim_index] = adj_str
+                v1_indices[self.__forward_hdim_index] = adj_str
             # end if
         # end if
         if flip_vdim is not None:
-            vdim = v1_indices[self.__reverse_vdim_index]
+            vdim = v1_indices[self.__forward_vdim_index]
             adj_str = f"{flip_vdim}-{vdim}+1"
-            v1_indices[self.__reverse_vdim_index] = adj_str
+            v1_indices[self.__forward_vdim_index] = adj_str
         # end if
         return f"{var1_lname}({','.join(v1_indices)})"
 
-- 
2.43.0


From 10acc2bd24519dddf98c7120bebe32dcf94f03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 03/95] fix: install generated files whose contents changed

---
 scripts/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..cce8fb0 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,8 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path,
+                                            shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From 12fe28c531eeab444cd5b11308d3c7afb1b84a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 04/95] fix: report named input files which do not exist

---
 scripts/file_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index cce8fb0..e1fcca8 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,12 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    files = glob.glob(filepath)
+    if (not files) and (not glob.has_magic(filepath)):
+        # A named file (not a wildcard) must exist
+        files = [filepath]
+    # end if
+    for file in files:
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
-- 
2.43.0


From b76d41004ffea1ea2ba7e955ebcd9c5c5e6fba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 05/95] fix: recognise absolute input file names that differ
 only in spelling

---
 scripts/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index e1fcca8..1a2e6fd 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -142,8 +142,9 @@ def _create_file_list_int(files, suffices, file_type, logger,
             suff = suff[1:]
         # end if
         if not os.path.isabs(filename):
-            filename = os.path.normpath(os.path.join(root_path, filename))
+            filename = os.path.join(root_path, filename)
         # end if
+        filename = os.path.normpath(filename)
         if os.path.isdir(filename):
             for suff_type in suffices:
                 file_type = os.path.join(filename, '*.{}'.format(suff_type))
-- 
2.43.0


From 5be63fdebed9380a4e737a73d649c8b354d89ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 06/95] fix: evaluate every term of a preprocessor condition

---
 scripts/parse_tools/preprocess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 06b9414..f9afb47 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -66,13 +66,13 @@ def preproc_item_value(item, preproc_defs):
             raise PreprocError("Cannot parse function {}".format(func))
         # end if
     elif isinstance(item, ast.BoolOp):
-        left_val = preproc_item_value(item.values[0], preproc_defs)
-        right_val = preproc_item_value(item.values[1], preproc_defs)
+        values = [preproc_bool(preproc_item_value(x, preproc_defs))
+                  for x in item.values]
         oper = item.op
         if isinstance(oper, ast.And):
-            value = preproc_bool(left_val) and preproc_bool(right_val)
+            value = all(values)
         elif isinstance(oper, ast.Or):
-            value = preproc_bool(left_val) or preproc_bool(right_val)
+            value = any(values)
         else:
             raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
-- 
2.43.0


From b47b3f2c24d9ed5cf9fd95cb2b55ab0cbc0f8f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 07/95] fix: translate preprocessor operators written without
 blanks

---
 scripts/parse_tools/preprocess.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index f9afb47..3d797fb 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -153,13 +153,16 @@ def parse_preproc_line(line, preproc_defs):
             # In character context, just copy current character
             pline = pline + line[index]
         elif line[index:index+2] == '&&':
-            pline = pline + 'and'
+            pline = pline + ' and '
             index = index + 1
         elif line[index:index+2] == '||':
-            pline = pline + 'or'
+            pline = pline + ' or '
+            index = index + 1
+        elif line[index:index+2] == '!=':
+            pline = pline + '!='
             index = index + 1
         elif line[index] == '!':
-            pline = pline + "not"
+            pline = pline + "not "
         else:
             match = __defined_re__.match(line[index:])
             if match is None:
-- 
2.43.0


From d06444bcf500086b9257650790b65e622ea4edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 08/95] fix: evaluate preprocessor definitions by value

---
 scripts/parse_tools/preprocess.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 3d797fb..f91866e 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -30,7 +30,8 @@ def preproc_bool(value):
             ival = int(value)
             line_val = ival != 0
         except ValueError:
-            line_val = value != "0"
+            # A symbol without a numeric value counts as zero
+            line_val = False
         # end try
     # end if
     return line_val
@@ -121,6 +122,16 @@ def preproc_item_value(item, preproc_defs):
         id_key = item.id
         if id_key in preproc_defs:
             value = preproc_defs[id_key]
+            if value is None:
+                # A symbol defined without a value counts as one
+                value = 1
+            else:
+                try:
+                    value = int(value)
+                except ValueError:
+                    pass # Not a number, compare as is
+                # end try
+            # end if
         else:
             value = id_key
         # end if
-- 
2.43.0


From 22b3d5bde8d1ad60c5ffaf562bbbebde84fcb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 09/95] fix: select at most one branch of a preprocessor chain

---
 scripts/parse_tools/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index f91866e..07f8c46 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -408,7 +408,7 @@ class PreprocStack(object):
         if curr_region[0]:
             self._region_stack.append([curr_region[0], False])
         else:
-            self._region_stack.append([curr_region[0], valid])
+            self._region_stack.append([valid, valid])
         # end if
 
     def in_true_region(self):
-- 
2.43.0


From 088cc8a8984ede13f5c6808c79ca352777c08450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 10/95] fix: report misplaced and unterminated preprocessor
 directives

---
 scripts/fortran_tools/parse_fortran_file.py |  1 +
 scripts/parse_tools/preprocess.py           | 29 ++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..a859b0a 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -455,6 +455,7 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         curr_line, curr_line_num = pobj.next_line()
     # End while
+    preproc_status.check_closed(pobj)
     return pobj
 
 ########################################################################
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 07f8c46..5fb4853 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -346,7 +346,7 @@ class PreprocStack(object):
                 if match is not None:
                     line_val, success = self.process_if_line(sline,
                                                              preproc_defs)
-                    self.modify_region(line_val)
+                    self.modify_region(line_val, pobj)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #elif statement not handled, at {}"
                         logger.warning(lmsg.format(pobj))
@@ -358,7 +358,7 @@ class PreprocStack(object):
                 if match is not None:
                     # Always try to use True for else, modify_region will set
                     # correct value
-                    self.modify_region(True)
+                    self.modify_region(True, pobj, is_else=True)
                 # end if
             # end if
             if match is None:
@@ -388,7 +388,7 @@ class PreprocStack(object):
     def enter_region(self, valid):
         """Enter a new region (if, ifdef, ifndef) which may
         currently be valid"""
-        self._region_stack.append([valid, valid])
+        self._region_stack.append([valid, valid, False])
 
     def exit_region(self, pobj):
         """Leave the current (innermost) region"""
@@ -398,17 +398,34 @@ class PreprocStack(object):
         # end if
         self._region_stack.pop()
 
-    def modify_region(self, valid):
+    def check_closed(self, pobj):
+        """Raise an error if any region is still open"""
+        if self._region_stack:
+            emsg = "#if, #ifdef, or #ifndef found with no matching #endif"
+            raise ParseSyntaxError(emsg, context=pobj)
+        # end if
+
+    def modify_region(self, valid, pobj, is_else=False):
         """Possibly modify the current (innermost) region.
         A region can be modified from False to True.
         Any attempt to modify a region which has been True results in False
         because after a region has been True, any #elif or #else must skipped.
+        <is_else> is True for an #else, which must be the last branch.
         """
+        directive = "#else" if is_else else "#elif"
+        if not self._region_stack:
+            emsg = "{} found with no matching #if, #ifdef, or #ifndef"
+            raise ParseSyntaxError(emsg.format(directive), context=pobj)
+        # end if
         curr_region = self._region_stack.pop()
+        if curr_region[2]:
+            emsg = "{} found after #else"
+            raise ParseSyntaxError(emsg.format(directive), context=pobj)
+        # end if
         if curr_region[0]:
-            self._region_stack.append([curr_region[0], False])
+            self._region_stack.append([curr_region[0], False, is_else])
         else:
-            self._region_stack.append([valid, valid])
+            self._region_stack.append([valid, valid, is_else])
         # end if
 
     def in_true_region(self):
-- 
2.43.0


From adf7a5b1443864675aff0f9336ea33c4be1acafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 11/95] fix: recognise preprocessor directives as the C
 preprocessor does

---
 scripts/parse_tools/preprocess.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 5fb4853..e781306 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -209,14 +209,14 @@ def parse_preproc_line(line, preproc_defs):
 class PreprocStack(object):
     """Class to handle preprocess regions"""
 
-    ifdef_re = re.compile(r"#\s*ifdef\s+(.*)")
-    ifndef_re = re.compile(r"#\s*ifndef\s+(.*)")
-    if_re = re.compile(r"#\s*if([^dn].*)")
-    elif_re = re.compile(r"#\s*elif\s(.*)")
-    ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
+    ifdef_re = re.compile(r"#\s*ifdef\s+([A-Za-z0-9_]+)")
+    ifndef_re = re.compile(r"#\s*ifndef\s+([A-Za-z0-9_]+)")
+    if_re = re.compile(r"#\s*if([^A-Za-z0-9_].*)")
+    elif_re = re.compile(r"#\s*elif([^A-Za-z0-9_].*)")
+    ifelif_re = re.compile(r"#\s*(?:el)?if([^A-Za-z0-9_].*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
-    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
+    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:\s+([^\s]*))?")
     undef_re = re.compile(r"#\s*undef\s+([A-Za-z0-9_]+)")
 
     def __init__(self):
-- 
2.43.0


From a03046c4f0716c2ec87f33c118a931cf4a73905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 12/95] fix: register the unique local name given to a new
 variable

---
 scripts/metavar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..99bdd7c 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1683,6 +1683,7 @@ class VarDictionary(OrderedDict):
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
+                lname = new_lname
             elif not exists_ok:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
-- 
2.43.0


From 320c6ba22ca265fd1a8fe3bbc14d5269a0ce5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 13/95] fix: free the local name of a removed variable

---
 scripts/metavar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 99bdd7c..16e1358 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1715,6 +1715,8 @@ class VarDictionary(OrderedDict):
         """
         if standard_name in self:
             del self[standard_name]
+            self.__local_names = {x : y for x, y in self.__local_names.items()
+                                  if y != standard_name}
         # end if
 
     def add_variable_dimensions(self, var, ignore_sources, to_dict=None,
-- 
2.43.0


From 89c0dab19d4656c1501fd859d7e91cdb6fd3e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 14/95] fix: keep invented variable names distinct from all
 names in use

---
 scripts/metavar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 16e1358..ef452a1 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -2088,7 +2088,6 @@ class VarDictionary(OrderedDict):
         else:
             var_prefix = '{}'.format(prefix)
         # end if
-        varlist = [x for x in self.__local_names.keys() if var_prefix in x]
         newvar = None
         while newvar is None:
             if index == 0:
@@ -2100,7 +2099,7 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar in varlist:
+            elif newvar.lower() in self.__local_names:
                 newvar = None
             # end if
         # end while
-- 
2.43.0


From 95367991fe2eedddbf9f7f2bd363d6537ec6a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 15/95] fix: reject a second variable with a local name already
 in use

---
 scripts/metavar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index ef452a1..e449ad6 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1684,7 +1684,8 @@ class VarDictionary(OrderedDict):
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
                 lname = new_lname
-            elif not exists_ok:
+            elif ((not exists_ok) or
+                  (lvar.get_prop_value('standard_name') != standard_name)):
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
                 raise ParseSyntaxError(errstr.format(lname, cstr),
-- 
2.43.0


From 58c57e8cc4bb8bc749d44588034c074b8fd51552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 16/95] fix: never invent a variable name without a leading
 letter

---
 scripts/metavar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index e449ad6..ce54d3d 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -2099,6 +2099,10 @@ class VarDictionary(OrderedDict):
             index = index + 1
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
+                if not var_prefix:
+                    emsg = "Cannot create a variable name of length {} in {}"
+                    raise ParseInternalError(emsg.format(max_len, self.name))
+                # end if
                 newvar = None
             elif newvar.lower() in self.__local_names:
                 newvar = None
-- 
2.43.0


From ca1376a5e82704c0d2c982b57b6c1020613222d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 17/95] fix: register local names of variables copied into a
 dictionary

---
 scripts/metavar.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index ce54d3d..742c888 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1548,15 +1548,13 @@ class VarDictionary(OrderedDict):
                 self.add_variable(var, run_env)
             # end for
         elif isinstance(variables, VarDictionary):
-            for stdname in variables.keys():
-                self[stdname] = variables[stdname]
+            for var in variables.values():
+                self.add_variable(var, run_env)
             # end for
         elif isinstance(variables, dict):
             # variables may not be in 'order', but we accept them anyway
-            for key in variables.keys():
-                var = variables[key]
-                stdname = var.get_prop_value('standard_name')
-                self[stdname] = variables[key]
+            for var in variables.values():
+                self.add_variable(var, run_env)
             # end for
         elif variables is not None:
             raise ParseInternalError(f'Illegal type for variables, {type_name(variables)} in {self.name}')
-- 
2.43.0


From 46e8a407bc38f75b9c932251399f5188a23b8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 18/95] fix: describe the current parse regions without failing

---
 scripts/parse_tools/parse_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_source.py b/scripts/parse_tools/parse_source.py
index 2ed0e5b..388e198 100644
--- a/scripts/parse_tools/parse_source.py
+++ b/scripts/parse_tools/parse_source.py
@@ -356,7 +356,7 @@ class ParseContext():
     def region_str(self):
         """Create a string describing the current region"""
         rgn_str = ""
-        for index in len(self.__regions):
+        for index in range(len(self.__regions)):
             rtype, rname = self.__regions[index]
             if rgn_str:
                 rgn_str += " ==> "
-- 
2.43.0


From 5c03376e3c820f87af3679437036882c089eff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 19/95] fix: accept 'size' dimensions also when errors are
 requested

---
 scripts/parse_tools/parse_checkers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 469bf1d..3c4c729 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -125,7 +125,7 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
                 except ValueError as ve:
                     # Not an integer, try a Fortran ID
                     valid = check_fortran_id(tdim, None,
-                                             error, max_len=max_len) is not None
+                                             False, max_len=max_len) is not None
                     if not valid:
                         # Check for size entry -- simple check
                         tcheck = tdim.strip().lower()
@@ -137,6 +137,9 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
                             else:
                                 valid = tdim
                             # end if
+                        elif error:
+                            # Report the problem with this identifier
+                            check_fortran_id(tdim, None, error, max_len=max_len)
                         # end if
                     # end if
                 # End try
-- 
2.43.0


From 17bcbcd481e32a0fe9bea9bc8a5db6fdfeb559e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 20/95] fix: reject integer dimensions with digit separators

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 3c4c729..d67d8e9 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -121,7 +121,7 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
             for tdim in tdims:
                 # Check numeric value first
                 try:
-                    valid = isinstance(int(tdim), int)
+                    valid = isinstance(int(tdim), int) and ('_' not in tdim)
                 except ValueError as ve:
                     # Not an integer, try a Fortran ID
                     valid = check_fortran_id(tdim, None,
-- 
2.43.0


From 43ea9b821cec8a873fa4c5298d190a3aa761a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 21/95] fix: compare the kind of a literal ignoring case

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index d67d8e9..6894547 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -690,7 +690,7 @@ def check_fortran_literal(value, typestr, kind):
                 vkind = ''
             # end if
         # end if
-        if vkind != kind.lower():
+        if vkind.lower() != kind.lower():
             valid = False
         # end if, kind is okay, check value
         if valid and (vtype == 'integer'):
-- 
2.43.0


From 3da4a192411ac8f37e96be40e247e803d3a58b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 22/95] fix: recognise character literals as Fortran does

---
 scripts/parse_tools/parse_checkers.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 6894547..e663aa6 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -232,6 +232,8 @@ FORTRAN_INTRINSIC_TYPES = ["integer", "real", "logical", "complex",
 FORTRAN_DP_RE = re.compile(r"(?i)double\s*precision")
 FORTRAN_TYPE_RE = re.compile(r"(?i)type\s*\(\s*("+FORTRAN_ID+r")\s*\)")
 
+_CHAR_LITERAL_RE = re.compile(r"(?s)(?:"+FORTRAN_ID+r"_(?=['\"]))?(.*)$")
+
 _REGISTERED_FORTRAN_DDT_NAMES = []
 
 ########################################################################
@@ -675,11 +677,13 @@ def check_fortran_literal(value, typestr, kind):
     elif valid:
         vparts = value.strip().split('_')
         if vtype == 'character':
-            if len(vparts) > 1:
-                val = vparts[-1]
-                vkind = '_'.join(vparts[0:-1])
-            else:
-                val = vparts[0]
+            # The kind, if any, comes before the opening delimiter
+            vkind, val = _CHAR_LITERAL_RE.match(value.strip()).groups()
+            if kind.lower().replace(' ', '')[0:4] == 'len=':
+                # A length is not part of a literal
+                kind = ''
+            # end if
+            if not vkind:
                 vkind = ''
             # end if
         else:
@@ -712,10 +716,10 @@ def check_fortran_literal(value, typestr, kind):
         elif valid and (vtype == 'logical'):
             valid = (val.upper() == '.TRUE.') or (val.upper() == '.FALSE.')
         elif valid and (vtype == 'character'):
-            sep = val[0]
-            cparts = val.split(sep)
+            sep = val[0:1]
+            cparts = val.split(sep) if sep else list()
             # We must have balanced delimiters
-            if len(cparts)%2 == 0:
+            if (sep not in ["'", '"']) or (len(cparts)%2 == 0):
                 valid = False
             else:
                 for index in range(len(cparts)):
-- 
2.43.0


From e595b6908e68cc534905ad9c8782daa69a1b2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 23/95] fix: reject complex literals with a missing component

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index e663aa6..cb41cb3 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -666,7 +666,7 @@ def check_fortran_literal(value, typestr, kind):
             elif ('.' in cvals[0]) or ('.' in cvals[1]):
                 valid = False
             # end if
-            if (cvals[0][0] == '(') and (cvals[1][-1] == ')'):
+            if (cvals[0][0:1] == '(') and (cvals[1][-1:] == ')'):
                 valid = valid and check_fortran_literal(cvals[0][1:], tp, kind)
                 valid = valid and check_fortran_literal(cvals[1][:-1], tp, kind)
             else:
-- 
2.43.0


From c271a35637ed99e81b807df0a2c10ac06b9f2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 24/95] fix: reject blanks inside numeric and logical literals

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index cb41cb3..73ca444 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -694,7 +694,7 @@ def check_fortran_literal(value, typestr, kind):
                 vkind = ''
             # end if
         # end if
-        if vkind.lower() != kind.lower():
+        if (vkind.lower() != kind.lower()) or (val != val.strip()):
             valid = False
         # end if, kind is okay, check value
         if valid and (vtype == 'integer'):
-- 
2.43.0


From ab5dae9df6c315d143f8c4f417da96a2dcccf9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 25/95] fix: reject text after an intrinsic type name

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 73ca444..67f8a9a 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -496,7 +496,7 @@ def check_fortran_intrinsic(typestr, error=False):
     match = chk_type in FORTRAN_INTRINSIC_TYPES
     if (not match) and (chk_type[0:6] == 'double'):
         # Special case for double precision
-        match = FORTRAN_DP_RE.match(chk_type) is not None
+        match = FORTRAN_DP_RE.fullmatch(chk_type) is not None
     # End if
     if not match:
         if error:
-- 
2.43.0


From 0e7f3c67d76bad03a04c49702e65d75d83a38835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 26/95] fix: derived type variables have no literal values

---
 scripts/parse_tools/parse_checkers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 67f8a9a..9ac8ba3 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -448,7 +448,8 @@ def check_local_name(test_val, prop_dict, error, max_len=0):
     else:
         kind = ""
     # end if
-    if protected and vtype and check_fortran_literal(test_val, vtype, kind):
+    if (protected and check_fortran_intrinsic(vtype) and
+        check_fortran_literal(test_val, vtype, kind)):
         valid_val = test_val
     # end if
     if valid_val is None:
@@ -777,7 +778,8 @@ def check_default_value(test_val, prop_dict, error):
         else:
             vkind = ''
         # end if
-        if not check_fortran_literal(test_val, var_type, vkind):
+        if ((not check_fortran_intrinsic(var_type)) or
+            (not check_fortran_literal(test_val, var_type, vkind))):
             valid = None
             if error:
                 emsg = '{} is not a valid Fortran {}'
-- 
2.43.0


From 82f80904dc51ce3fdc818fdf20276de5899fa0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 27/95] fix: reject a molar mass which is not a number

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 9ac8ba3..8931175 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -986,7 +986,7 @@ def check_molar_mass(test_val, prop_dict, error):
     # Check if input value is an int or float
     try:
         test_val = float(test_val)
-        if test_val < 0.0 or test_val > _MAX_MOLAR_MASS:
+        if not (0.0 <= test_val <= _MAX_MOLAR_MASS):
            if error:
                raise CCPPError(f"{test_val} is not a valid molar mass")
            else:
-- 
2.43.0


From e907cccaa0604c4a17c949bde66371e9ebd916d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 28/95] fix: report property values which are not numbers

---
 scripts/var_props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index c444e34..025c0ab 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -689,7 +689,7 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except (TypeError, ValueError):
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
@@ -703,7 +703,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except (TypeError, ValueError):
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From 083301ff43f0e353c199854edfff6291226e992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 29/95] fix: reject text outside the parentheses of a list

---
 scripts/parse_tools/parse_checkers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 8931175..adbfcb3 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -298,8 +298,9 @@ def fortran_list_match(test_str):
     >>> fortran_list_match('(foo, bar')
 
     """
+    test_str = test_str.strip()
     parens, parene = check_balanced_paren(test_str)
-    if (parens >= 0) and (parene > parens):
+    if (parens == 0) and (parene == len(test_str) - 1):
         litems = [x.strip() for x in test_str[parens+1:parene].split(',')]
         if (len(litems) > 1) and (min([len(x) for x in litems]) == 0):
             litems = None
-- 
2.43.0


From 498bbb9f51a66cdd59db695fddceca34420ec463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 30/95] fix: validate the value given to Var.valid_value

---
 scripts/metavar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 742c888..49fc956 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -758,9 +758,9 @@ class Var:
         vprop = Var.get_prop(prop_name)
         if vprop is not None:
             if test_value is None:
-                test_val = self.get_prop_value(prop_name)
+                test_value = self.get_prop_value(prop_name)
             # end if
-            valid = vprop.valid_value(test_val,
+            valid = vprop.valid_value(test_value,
                                       prop_dict=self._prop_dict, error=error)
         else:
             valid = None
-- 
2.43.0


From 45656b283fc72eb21a533c228983f2151a509a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 31/95] fix: reject metadata attributes without a value

---
 scripts/metadata_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..90da2d4 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -904,6 +904,10 @@ class MetadataSection(ParseSource):
                         check_prop = Var.get_prop(pname)
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
+                            if (pval == '') and (not check_prop.optional):
+                                # A required attribute needs a value
+                                pval = None
+                            # end if
                         else:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
-- 
2.43.0


From 3a896665815adda8a6c1e36ea41f72bf45193b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 32/95] fix: reject a literal with an underscore but no kind

---
 scripts/parse_tools/parse_checkers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index adbfcb3..6724ba7 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -692,6 +692,8 @@ def check_fortran_literal(value, typestr, kind):
             val = vparts[0]
             if len(vparts) > 1:
                 vkind = '_'.join(vparts[1:])
+                # An underscore must be followed by a kind
+                valid = len(vkind) > 0
             else:
                 vkind = ''
             # end if
-- 
2.43.0


From 3ca977a0aa445cd68a57b9ba54a59304d2d8f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 33/95] fix: report a bad fixed diagnostic name without other
 properties

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 6724ba7..788c700 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -856,7 +856,7 @@ def check_diagnostic_fixed(test_val, prop_dict, error):
         valid = None
         if error:
             emsg = "'{}' ({}) is not a valid fixed diagnostic name"
-            if 'local_name' in prop_dict:
+            if prop_dict and ('local_name' in prop_dict):
                 lname = prop_dict['local_name']
             else:
                 lname = 'UNKNOWN'
-- 
2.43.0


From 16911b4ccfc0d7d4f82c57dff5b01bee7b580b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 34/95] fix: match a dimension with a default lower bound of
 one to its short form

---
 scripts/suite_objects.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..d09b5cd 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -608,16 +608,10 @@ class SuiteObject(VarDictionary):
         # end if
         # Is one side missing a one start?
         if not match:
-            ndims = need_dim.split(':')
-            hdims = have_dim.split(':')
-            if len(ndims) > len(hdims):
-                if ndims[0].lower == 'ccpp_constant_one':
-                    ndims = ndims[1:]
-                elif hdims[0].lower == 'ccpp_constant_one':
-                    hdims = hdims[1:]
-                # end if (no else)
-                # Last try
-                match = ndims == hdims
+            if need_dim == 'ccpp_constant_one:' + have_dim:
+                match = need_dim
+            elif have_dim == 'ccpp_constant_one:' + need_dim:
+                match = have_dim
             # end if
         # end if
 
-- 
2.43.0


From 87b532796958197077193bf70ae77c6efdb71c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 35/95] fix: report a missing vertical dimension only if all
 others match

---
 scripts/suite_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index d09b5cd..5e32bb9 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -715,7 +715,7 @@ class SuiteObject(VarDictionary):
             # end if (no else, we are still okay)
         # end for
         # Find a missing vertical dimension index, if necessary
-        if nvdim_index < 0 <= hvdim_index:
+        if match and (nvdim_index < 0 <= hvdim_index):
             # We need to make a substitution for the vertical
             # coordinate in have_dims
             vvmatch = VarDictionary.loop_var_match(have_dims[hvdim_index])
-- 
2.43.0


From 08e81f382ccb320e71110cf5aab56f3ca5905dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 36/95] fix: do not match a variable that has an extra
 dimension

---
 scripts/suite_objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 5e32bb9..b86d7e6 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -714,6 +714,13 @@ class SuiteObject(VarDictionary):
                 break
             # end if (no else, we are still okay)
         # end for
+        # Every dimension in have_dims must be matched, except for a vertical
+        # dimension which is missing from need_dims (handled below)
+        num_matched = len(perm) + (1 if nvdim_index < 0 <= hvdim_index else 0)
+        if match and (num_matched < hlen):
+            match = False
+            reason = '{hname}{hctx} has a dimension not found in {nname}{nctx}'
+        # end if
         # Find a missing vertical dimension index, if necessary
         if match and (nvdim_index < 0 <= hvdim_index):
             # We need to make a substitution for the vertical
-- 
2.43.0


From 3541b90303c17ef3ae1da22f5171b1a740ac695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 37/95] fix: reject an active condition with text that is not
 understood

---
 scripts/metavar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 49fc956..580e913 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1008,6 +1008,9 @@ class Var:
         # Find all words in the conditional, for each of them look
         # for a matching standard name in the list of known variables
         items = FORTRAN_CONDITIONAL_REGEX.findall(active)
+        if ''.join(items) != active:
+            # Do not silently drop anything which was not recognized
+            raise Exception(f"Cannot translate conditional '{active}', understood only '{''.join(items)}'")
         for item in items:
             item = item.lower()
             if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
-- 
2.43.0


From 139a17df78b29b1446ce35d2c09a6f8440af7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 38/95] fix: prebuild: reject an active condition with text
 that is not understood

---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..949e3cb 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1188,6 +1188,9 @@ end module {module}
                             # Find all words in the conditional, for each of them look for a matching
                             # standard name in the list of known variables
                             items = FORTRAN_CONDITIONAL_REGEX.findall(var.active)
+                            if ''.join(items) != var.active:
+                                raise Exception("Cannot translate conditional {} for {}".format(
+                                                                        var.active, var_standard_name))
                             for item in items:
                                 item = item.lower()
                                 if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
-- 
2.43.0


From fd2c5a60250d33b3262439895b8c235251df534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 39/95] fix: prebuild: keep dimensions with several indices
 whole

---
 scripts/mkstatic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 949e3cb..1ed4d11 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -141,6 +141,10 @@ def extract_dimensions_from_local_name(local_name):
             elif i == len(dim_string)-1 and dim:
                 dimensions.append(dim)
             else:
+                if dim_string[i] == '(':
+                    opened += 1
+                elif dim_string[i] == ')':
+                    opened -= 1
                 dim += dim_string[i]
             i +=  1
     else:
-- 
2.43.0


From 20048c0efad30a1917c541cef0dac217b9af8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 40/95] fix: prebuild: ignore blanks around indices and keep
 the indices in order

---
 scripts/mkstatic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 1ed4d11..8ddf00c 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -84,9 +84,10 @@ def extract_parents_and_indices_from_local_name(local_name):
         index_set = local_name[last_open+1:last_closed].split(',')
         for index_group in index_set:
             for index in index_group.split(':'):
+                index = index.strip()
                 if index:
                     if '%' in index:
-                        indices.append(index[:index.find('%')])
+                        indices.append(index[:index.find('%')].strip())
                     else:
                         # Skip hard-coded integers that are not variables
                         try:
@@ -95,8 +96,8 @@ def extract_parents_and_indices_from_local_name(local_name):
                             indices.append(index)
         # Remove this innermost index group (...) from local_name
         local_name = local_name.replace(local_name[last_open:last_closed+1], '')
-    # Remove duplicates from indices
-    indices = list(set(indices))
+    # Remove duplicates from indices (keep the order reproducible)
+    indices = list(dict.fromkeys(indices))
     # Derive parent of actual variable (now that all subsets have been processed)
     if '%' in local_name:
         parent = local_name[:local_name.find('%')]
@@ -104,7 +105,6 @@ def extract_parents_and_indices_from_local_name(local_name):
         parent = local_name
     # Remove whitespaces
     parent = parent.strip()
-    indices = [ x.strip() for x in indices ]
     return (parent, indices)
 
 def extract_dimensions_from_local_name(local_name):
-- 
2.43.0


From e6294f291db35b3ed4dcbcc63d330840860a43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 41/95] fix: prebuild: keep the whole module name in module use
 statements

---
 scripts/mkcap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mkcap.py b/scripts/mkcap.py
index 69c2292..bfc533d 100755
--- a/scripts/mkcap.py
+++ b/scripts/mkcap.py
@@ -286,7 +286,7 @@ class Var(object):
         '''Print the module use line for the variable.'''
         for item in self.container.split(' '):
             if item.startswith('MODULE_'):
-                module = item.replace('MODULE_', '')
+                module = item[len('MODULE_'):]
                 break
         str = 'use {module}, only: {varname}'.format(module=module,varname=self.local_name)
         return str
-- 
2.43.0


From fd778aff294c4df784cc6f92d27bc909a39f27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 42/95] fix: keep continued lines within the maximum line
 length

---
 scripts/fortran_tools/fortran_write.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 5b186c1..c676854 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -82,8 +82,9 @@ end module {module}'''
         else:
             best = max(possible)
         # End if
-        if (best > self.__line_max) and (last < self.__line_max):
-            best = self.find_best_break(choices, last=self.__line_max)
+        # Leave room for the continuation character
+        if (best > self.__line_max) and (last < self.__line_max - 1):
+            best = self.find_best_break(choices, last=self.__line_max - 1)
         # End if
         return best
 
@@ -210,8 +211,12 @@ end module {module}'''
                     # This is probably a bad situation so we have to break
                     #   in an ugly spot
                     best = self.__line_max - 1
-                    if len(outstr) > best:
+                    if len(outstr) > self.__line_max:
                         line_continue = '&'
+                        if not in_comment:
+                            # Leave room for the continuation character
+                            best = best - 1
+                        # end if
                     # end if
                 # end if
                 if len(outstr) > best:
-- 
2.43.0


From 43b36f863df41824ef97169106a990c49667e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 43/95] fix: write lines which need no break or have only
 comment characters

---
 scripts/fortran_tools/fortran_write.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index c676854..5f73527 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -194,9 +194,8 @@ end module {module}'''
                 #    comment line but before any significant characters
                 if outstr.lstrip().startswith('!'):
                     first_space = outstr.index('!') + 1
-                    while ((outstr[first_space] == '!' or
-                            outstr[first_space] == ' ') and
-                           (first_space < line_len)):
+                    while ((first_space < line_len) and
+                           (outstr[first_space] in ('!', ' '))):
                         first_space += 1
                     # end while
                     if min(spaces) < first_space:
@@ -219,15 +218,13 @@ end module {module}'''
                         # end if
                     # end if
                 # end if
-                if len(outstr) > best:
+                if len(outstr) > best + 1:
                     if self._in_quote(outstr[0:best+1]):
                         line_continue = '&'
                     else:
                         # If next line is just comment, do not use continue
                         line_continue = outstr[best+1:].lstrip()[0] != '!'
                     # end if
-                elif not line_continue:
-                    line_continue = len(outstr) > best
                 # End if
                 if in_comment or is_comment_stmt:
                     line_continue = False
-- 
2.43.0


From be185aa89b902d6fcf15110c4b811279956cadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 44/95] fix: continue a statement which is broken before its
 comment

---
 scripts/fortran_tools/fortran_write.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 5f73527..cd2a1a9 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -156,6 +156,7 @@ end module {module}'''
                 sptr = len(istr)
                 in_single_char = False
                 in_double_char = False
+                comment_start = line_len
                 while sptr < line_len:
                     if in_single_char:
                         if outstr[sptr] == "'":
@@ -165,14 +166,15 @@ end module {module}'''
                         if outstr[sptr] == '"':
                             in_double_char = False
                         # End if (no else, just copy stuff in string)
-                    elif outstr[sptr] == "'":
+                    elif (outstr[sptr] == "'") and (not in_comment):
                         in_single_char = True
-                    elif outstr[sptr] == '"':
+                    elif (outstr[sptr] == '"') and (not in_comment):
                         in_double_char = True
                     elif outstr[sptr] == '!':
                         # Comment in non-character context
                         spaces.append(sptr-1)
                         in_comment = "! " # No continue for comment
+                        comment_start = min(comment_start, sptr)
                         if ((not is_comment_stmt) and
                             (sptr >= self.__max_comment_start)):
                             # suck in rest of line
@@ -212,12 +214,16 @@ end module {module}'''
                     best = self.__line_max - 1
                     if len(outstr) > self.__line_max:
                         line_continue = '&'
-                        if not in_comment:
+                        if best <= comment_start:
                             # Leave room for the continuation character
                             best = best - 1
                         # end if
                     # end if
                 # end if
+                if best + 1 < comment_start:
+                    # The break is before any comment
+                    in_comment = ""
+                # end if
                 if len(outstr) > best + 1:
                     if self._in_quote(outstr[0:best+1]):
                         line_continue = '&'
-- 
2.43.0


From 784c46e014706370649a15b437a8b118b26e5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 45/95] fix: continue broken names and literals with a leading
 '&'

---
 scripts/fortran_tools/fortran_write.py | 40 +++++++++++++++++++-------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index cd2a1a9..4dc5ac8 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -91,8 +91,10 @@ end module {module}'''
     ###########################################################################
 
     @staticmethod
-    def _in_quote(test_str):
+    def _in_quote(test_str, quote=""):
         """Return True if <test_str> ends in a character context.
+        If <quote> is present, <test_str> begins in the character context
+        which was opened by <quote>.
         >>> FortranWriter._in_quote("hi'mom")
         True
         >>> FortranWriter._in_quote("hi mom")
@@ -101,9 +103,11 @@ end module {module}'''
         False
         >>> FortranWriter._in_quote("'hi"" mom'")
         False
+        >>> FortranWriter._in_quote("hi' mom", quote="'")
+        False
         """
-        in_single_char = False
-        in_double_char = False
+        in_single_char = quote == "'"
+        in_double_char = quote == '"'
         for char in test_str:
             if in_single_char:
                 if char == "'":
@@ -123,11 +127,13 @@ end module {module}'''
 
     ###########################################################################
 
-    def write(self, statement, indent_level, continue_line=False):
+    def write(self, statement, indent_level, continue_line=False, quote=""):
         """Write <statement> to the open file, indenting to <indent_level>
         (see self.indent).
         If <continue_line> is True, treat this line as a continuation of
-        a previous statement."""
+        a previous statement.
+        If <quote> is present, this line continues the character context
+        which was opened by <quote>."""
         if isinstance(statement, list):
             for stmt in statement:
                 self.write(stmt, indent_level, continue_line)
@@ -153,9 +159,9 @@ end module {module}'''
                 # Collect pretty break points
                 spaces = list()
                 commas = list()
-                sptr = len(istr)
-                in_single_char = False
-                in_double_char = False
+                sptr = len(outstr) - len(ostmt)
+                in_single_char = quote == "'"
+                in_double_char = quote == '"'
                 comment_start = line_len
                 while sptr < line_len:
                     if in_single_char:
@@ -225,15 +231,26 @@ end module {module}'''
                     in_comment = ""
                 # end if
                 if len(outstr) > best + 1:
-                    if self._in_quote(outstr[0:best+1]):
+                    if self._in_quote(outstr[0:best+1], quote=quote):
                         line_continue = '&'
+                        if self._in_quote(outstr[0:best+1] + "'", quote=quote):
+                            quote = '"'
+                        else:
+                            quote = "'"
+                        # end if
                     else:
+                        quote = ""
                         # If next line is just comment, do not use continue
-                        line_continue = outstr[best+1:].lstrip()[0] != '!'
+                        if outstr[best+1:].lstrip()[0] == '!':
+                            line_continue = False
+                        elif not line_continue:
+                            line_continue = True
+                        # end if
                     # end if
                 # End if
                 if in_comment or is_comment_stmt:
                     line_continue = False
+                    quote = ""
                 # end if
                 if line_continue:
                     fill = "{}&".format((self.__line_fill - best)*' ')
@@ -250,7 +267,8 @@ end module {module}'''
                 if isinstance(line_continue, str) and statement:
                     statement = line_continue + statement
                 # end if
-                self.write(statement, indent_level, continue_line=line_continue)
+                self.write(statement, indent_level, continue_line=line_continue,
+                           quote=quote)
             else:
                 self.__file.write("{}\n".format(outstr))
             # End if
-- 
2.43.0


From 93e5826a1fb73ae39695e6f03800f5a9078bb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 46/95] fix: keep blanks and separate names where a free-form
 line is continued

---
 scripts/fortran_tools/parse_fortran_file.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index a859b0a..da65c24 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -398,6 +398,7 @@ def read_file(filename, preproc_defs=None, logger=None):
             # End if
         # End if
         # scan the line for properties
+        prev_in_char = in_schar or in_dchar
         if fixed_form:
             res = scan_fixed_line(curr_line, in_schar, in_dchar, pobj)
             cont_in_col, in_schar, in_dchar, comment_col = res
@@ -431,6 +432,11 @@ def read_file(filename, preproc_defs=None, logger=None):
             else:
                 eindex = len(curr_line)
             # End if
+            if ((not fixed_form) and (cont_in_col < 0) and
+                (not prev_in_char)):
+                # Without a leading '&', a name can not be continued
+                prev_line = prev_line + ' '
+            # End if
             prev_line = prev_line + curr_line[sindex:eindex]
             if fixed_form:
                 prev_line = prev_line.rstrip()
@@ -448,9 +454,6 @@ def read_file(filename, preproc_defs=None, logger=None):
         if (continue_col >= 0) and (prev_line is None):
             # We need to set up prev_line as it is continued
             prev_line = curr_line[0:continue_col]
-            if not (in_schar or in_dchar):
-                prev_line = prev_line.rstrip()
-            # End if
             prev_line_num = curr_line_num
         # End if
         curr_line, curr_line_num = pobj.next_line()
-- 
2.43.0


From 88e28141163d6908bb7a01a65dec5a959b70944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 47/95] fix: ignore empty statements

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index da65c24..45718bd 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -96,7 +96,7 @@ def line_statements(line):
             ind_end = line_len - 1
         elif line[ind_end] == ';':
             # The whole reason for this routine, the statement separator
-            if ind_end > ind_start:
+            if line[ind_start:ind_end].strip():
                 statements.append(line[ind_start:ind_end])
             # End if
             ind_start = ind_end + 1
@@ -105,7 +105,7 @@ def line_statements(line):
         ind_end = ind_end + 1
     # End while
     # Cleanup
-    if ind_end > ind_start:
+    if line[ind_start:ind_end].strip():
         statements.append(line[ind_start:ind_end])
     # End if
     return statements
-- 
2.43.0


From 451219a61af820833ec5e28a11d8f632009fff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 48/95] fix: read fixed-form continuation lines marked with '!'

---
 scripts/fortran_tools/parse_fortran_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 45718bd..940d562 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -375,7 +375,9 @@ def read_file(filename, preproc_defs=None, logger=None):
         elif (fixed_form and
               (_FIXED_COMMENT_RE.match(curr_line) is not None)):
             skip_line = True
-        elif curr_line.lstrip()[0] == '!':
+        elif ((curr_line.lstrip()[0] == '!') and
+              (not (fixed_form and
+                    _FIXED_CONTINUE_RE.match(curr_line) is not None))):
             skip_line = True
         # End if
         if skip_line:
-- 
2.43.0


From 7dc5e62daceeeeca48dead79ea690246c16ce432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 49/95] fix: ignore fixed-form text after column 72

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 940d562..5aa708f 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -356,6 +356,10 @@ def read_file(filename, preproc_defs=None, logger=None):
     with open(filename, 'r') as file:
         file_lines = file.readlines()
         for index, line in enumerate(file_lines):
+            if fixed_form and (line[0:1] != '#'):
+                # Anything after column 72 is not part of a statement
+                line = line.rstrip('\n')[0:72]
+            # End if
             file_lines[index] = line.rstrip('\n').rstrip()
         # End for
     # End with
-- 
2.43.0


From 76470acb8f8a7c446310d0e9d042e5d88c6eae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 50/95] fix: join fixed-form lines with comments and continued
 literals

---
 scripts/fortran_tools/parse_fortran_file.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 5aa708f..3edc128 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -410,10 +410,18 @@ def read_file(filename, preproc_defs=None, logger=None):
             cont_in_col, in_schar, in_dchar, comment_col = res
             continue_col = cont_in_col # No warning in fixed form
             cont_out_col = -1
-            if (comment_col < 0) and (continue_col < 0):
+            if comment_col >= 0:
+                fixed_text = curr_line[0:comment_col]
+            elif in_schar or in_dchar:
+                # Blanks up to column 72 are part of a continued literal
+                fixed_text = curr_line.ljust(72)
+            else:
+                fixed_text = curr_line
+            # End if
+            if continue_col < 0:
                 # Real statement, grab the line # in case is continued
                 prev_line_num = curr_line_num
-                prev_line = None
+                prev_line = fixed_text
             # End if
         else:
             res = scan_free_line(curr_line, (continue_col >= 0),
@@ -422,15 +430,13 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         # If in a continuation context, move this line to previous
         if continue_col >= 0:
-            if fixed_form and (prev_line is None):
-                prev_line = pobj.peek_line(prev_line_num)[0:72]
-            # End if
             if prev_line is None:
                 raise ParseInternalError("No prev_line to continue",
                                          context=pobj)
             # End if
             sindex = max(cont_in_col+1, 0)
             if fixed_form:
+                curr_line = fixed_text
                 sindex = 6
                 eindex = 72
             elif cont_out_col > 0:
@@ -444,7 +450,7 @@ def read_file(filename, preproc_defs=None, logger=None):
                 prev_line = prev_line + ' '
             # End if
             prev_line = prev_line + curr_line[sindex:eindex]
-            if fixed_form:
+            if fixed_form and (not (in_schar or in_dchar)):
                 prev_line = prev_line.rstrip()
             # End if
             # Rewrite the file's lines
-- 
2.43.0


From 19120ee0e4d2583c98cb47f4403598218d9b32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 51/95] fix: do not join the line after a comment which ends
 with a backslash

---
 scripts/fortran_tools/parse_fortran_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 3edc128..6d5c5bd 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -363,6 +363,15 @@ def read_file(filename, preproc_defs=None, logger=None):
             file_lines[index] = line.rstrip('\n').rstrip()
         # End for
     # End with
+    # Only preprocessor lines are continued by a backslash
+    in_directive = False
+    for index, line in enumerate(file_lines):
+        in_directive = in_directive or (line[0:1] == '#')
+        if not in_directive:
+            file_lines[index] = line.rstrip('\\').rstrip()
+        # End if
+        in_directive = in_directive and line.endswith('\\')
+    # End for
     # create a parse object and context for this file
     pobj = ParseObject(filename, file_lines)
     continue_col = -1 # Active continue column
-- 
2.43.0


From c5a0150bb5d5b1bbfcf7b7e73f42ecdecfe05be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 52/95] fix: remove fixed-form comment lines

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 6d5c5bd..1717549 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -388,6 +388,10 @@ def read_file(filename, preproc_defs=None, logger=None):
         elif (fixed_form and
               (_FIXED_COMMENT_RE.match(curr_line) is not None)):
             skip_line = True
+            if curr_line[0] in 'cC*':
+                # Do not mistake this comment for a statement
+                pobj.write_line(curr_line_num, "")
+            # End if
         elif ((curr_line.lstrip()[0] == '!') and
               (not (fixed_form and
                     _FIXED_CONTINUE_RE.match(curr_line) is not None))):
-- 
2.43.0


From 903913f8dc417ef16bdf252ae2f0d0e4ea9902c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 53/95] fix: read fixed-form continuation lines marked with '#'

---
 scripts/fortran_tools/parse_fortran_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 1717549..6144c0a 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -402,7 +402,10 @@ def read_file(filename, preproc_defs=None, logger=None):
             continue
         # End if
         # Handle preproc issues
-        if preproc_status.process_line(curr_line, preproc_defs, pobj, logger):
+        if ((not (fixed_form and
+                  _FIXED_CONTINUE_RE.match(curr_line) is not None)) and
+            preproc_status.process_line(curr_line, preproc_defs,
+                                        pobj, logger)):
             pobj.write_line(curr_line_num, "")
             curr_line, curr_line_num = pobj.next_line()
             continue
-- 
2.43.0


From e2934d5741233e72a8d8d6f1e44cc205b609b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 54/95] fix: read fixed-form initial lines marked with '0'

---
 scripts/fortran_tools/parse_fortran_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 6144c0a..b241bf2 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -38,6 +38,7 @@ _ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\s+"+FORTRAN_ID+r"?")
 _CONTAINS_RE = re.compile(r"(?i)\s*contains")
 _CONTINUE_RE = re.compile(r"(?i)&\s*(!.*)?$")
 _FIXED_CONTINUE_RE = re.compile(r"(?i)     [^0 ]")
+_FIXED_INITIAL_RE = re.compile(r"[ 0-9]{5}0")
 _BLANK_RE = re.compile(r"\s+")
 _ARG_TABLE_START_RE = re.compile(r"(?i)\s*![!>]\s*(?:\\section)?\s*arg_table_"+FORTRAN_ID)
 _PREFIX_SPECS = [r"(?:recursive)", r"(?:pure)", r"(?:elemental)"]
@@ -359,6 +360,10 @@ def read_file(filename, preproc_defs=None, logger=None):
             if fixed_form and (line[0:1] != '#'):
                 # Anything after column 72 is not part of a statement
                 line = line.rstrip('\n')[0:72]
+                # A zero in column 6 only marks an initial line
+                if _FIXED_INITIAL_RE.match(line) is not None:
+                    line = line[0:5] + ' ' + line[6:]
+                # End if
             # End if
             file_lines[index] = line.rstrip('\n').rstrip()
         # End for
-- 
2.43.0


From 4e207748c10502587228fbb2df4353c7de55f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 55/95] fix: compare the Fortran dimensions with the metadata
 dimensions

---
 scripts/ccpp_capgen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..12ecd6f 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -231,8 +231,8 @@ def dims_comp(mheader, mvar, fvar, title, logger, case_sensitive=False):
                 mdim = mdim.lower()
                 fdim = fdim.lower()
             # end if
-            # Naked colon is okay for Fortran side
-            comp = fdim in (':', fdim)
+            # Naked colon is okay for Fortran side (also after a lower bound)
+            comp = fdim in (':', mdim, mdim.split(':')[0] + ':')
             if not comp:
                 errmsg = 'Error: dim {} mismatch ({} != {}) in {}/{}{}'
                 stdname = mvar.get_prop_value('standard_name')
-- 
2.43.0


From fbe8129ed20042642c962e8fd76cd8e8b858ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 56/95] fix: check the optional attribute of every argument

---
 scripts/ccpp_capgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 12ecd6f..f756f75 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -320,7 +320,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if fvar and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
-- 
2.43.0


From 71059f1aacbc08a64d3f06c07f04a4e8df4be943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 57/95] fix: compare every metadata variable which has a
 Fortran variable

---
 scripts/ccpp_capgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index f756f75..551dedb 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -337,7 +337,8 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
                     errors_found = add_error(errors_found, errmsg)
                 # end if
             # end if
-            if mind >= flen:
+            if (mind >= flen) and ((fvar is None) or
+                                   (fht in _ORDERED_TABLE_TYPES)):
                 if arrayref:
                     # Array reference, variable not in Fortran table
                     pass
-- 
2.43.0


From 21a35ee377baa486db85297030b6d61d990ab3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 58/95] fix: match the order of arguments after an omitted
 optional argument

---
 scripts/ccpp_capgen.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 551dedb..71ab95c 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -281,16 +281,16 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
         list_match = mlen == flen
         # Check for optional Fortran variables that are not in metadata
         if flen > mlen:
-            for find, fvar in enumerate(flist):
+            required = list()
+            for fvar in flist:
                 lname = fvar.get_prop_value('local_name')
                 _, mind = find_var_in_list(lname, mlist)
-                if mind < 0:
-                    if fvar.get_prop_value('optional'):
-                        # This is an optional variable
-                        flen -= 1
-                    # end if
-                # end if
+                if (mind >= 0) or (not fvar.get_prop_value('optional')):
+                    required.append(fvar)
+                # end if (else, this is an optional variable)
             # end for
+            flist = required
+            flen = len(flist)
             list_match = mlen == flen
         # end if
         if not list_match:
-- 
2.43.0


From be879c00d408540be1c793289ba68d04f9a36d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 59/95] fix: separate the errors of several metadata tables

---
 scripts/ccpp_capgen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 71ab95c..57d8e83 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -444,7 +444,10 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
     errors_found = ''
     for mheader in header_dict:
         fheader = header_dict[mheader]
-        errors_found += compare_fheader_to_mheader(mheader, fheader, logger)
+        errors = compare_fheader_to_mheader(mheader, fheader, logger)
+        if errors:
+            errors_found = add_error(errors_found, errors)
+        # end if
     # end for
     if errors_found:
         num_errors = len(re.findall(r'\n', errors_found)) + 1
-- 
2.43.0


From 8d88fc84e8fba04b413932eebe97f1ca048f1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 60/95] fix: report a duplicate metadata table

---
 scripts/ccpp_capgen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 57d8e83..a9827b7 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -503,7 +503,8 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -561,7 +562,8 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
-- 
2.43.0


From 4e27fe9446259a5bab32495b8e043d0a8b416218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 61/95] fix: report an unknown dimension of a Fortran variable

---
 scripts/metadata_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 90da2d4..0389202 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1114,7 +1114,7 @@ class MetadataSection(ParseSource):
                         errmsg += context_string(context)
                         if logger is not None:
                             errmsg = "ERROR: " + errmsg
-                            logger.error(errmsg.format(item, std, ctx))
+                            logger.error(errmsg)
                             dname = unique_standard_name()
                         else:
                             raise CCPPError(errmsg) from verr
-- 
2.43.0


From 008426415abb7915b50f8905579aa28413c52d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 62/95] fix: keep literals and array constructors whole in
 declarations

---
 scripts/fortran_tools/parse_fortran.py | 42 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e7d3c49..298be77 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -221,21 +221,33 @@ class Ftype(object):
         ['dimension(size(Grid%xlon,1),NSPC1)', 'intent(in)']
         """
         var_list = list()
-        proplist = propstr.split(splitstr)
-        while len(proplist) > 0:
-            var = proplist.pop(0)
-            while var.count('(') != var.count(')'):
-                if len(proplist) == 0:
-                    raise ParseSyntaxError(errstr, token=propstr, context=context)
+        var = ''
+        depth = 0
+        in_char = None # Character context
+        for char in propstr:
+            if (char == splitstr) and (depth == 0) and (in_char is None):
+                var_list.append(var.strip())
+                var = ''
+                continue
+            # end if
+            var += char
+            if in_char is not None:
+                if char == in_char:
+                    in_char = None
                 # end if
-                var = var + ',' + proplist.pop(0)
-            # end while
-            var = var.strip()
-            if len(var) > 0:
-                var_list.append(var)
+            elif char in ('"', "'"):
+                in_char = char
+            elif char in ('(', '['):
+                depth += 1
+            elif char in (')', ']'):
+                depth -= 1
             # end if
-        # end while
-        return var_list
+        # end for
+        if (depth != 0) or (in_char is not None):
+            raise ParseSyntaxError(errstr, token=propstr, context=context)
+        # end if
+        var_list.append(var.strip())
+        return [x for x in var_list if x]
 
     @classmethod
     def parse_attr_specs(cls, propstring, context):
@@ -721,7 +733,7 @@ def parse_fortran_var_decl(line, source, run_env):
         intent = None
         dimensions = None
         if '::' in varprops:
-            elements = varprops.split('::')
+            elements = varprops.split('::', 1)
             varlist = elements[1].strip()
             varprops = Ftype.parse_attr_specs(elements[0].strip(), context)
             for prop in varprops:
@@ -758,7 +770,7 @@ def parse_fortran_var_decl(line, source, run_env):
             prop_dict = {}
             if '=' in var:
                 # We do not care about initializers
-                var = var[0:var.rindex('=')].rstrip()
+                var = var[0:var.index('=')].rstrip()
             # end if
             # Scan <var> and gather variable pieces
             inchar = None # Character context
-- 
2.43.0


From 14a0af9c7aaf7cbc2268c2c52ce89e6a735c7304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 63/95] fix: accept '!' in character literals in declarations

---
 scripts/fortran_tools/parse_fortran.py | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index 298be77..c233c4d 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -579,15 +579,37 @@ class FtypeTypeDecl(Ftype):
         """Return a printable string for this Ftype object"""
         return '{}({})'.format(self.__class, self.typestr)
 
+########################################################################
+def strip_comment(line):
+########################################################################
+    """Return <line> without its comment, if any. An exclamation point in a
+    character context does not start a comment.
+    >>> strip_comment("integer :: foo ! bar's")
+    'integer :: foo'
+    >>> strip_comment("character(len=2) :: foo = '!' // \\"!\\" ! bar")
+    'character(len=2) :: foo = \\'!\\' // "!"'
+    """
+    in_char = None # Character context
+    for cloc, char in enumerate(line):
+        if in_char is not None:
+            if char == in_char:
+                in_char = None
+            # end if
+        elif char in ('"', "'"):
+            in_char = char
+        elif char == '!':
+            return line[0:cloc].rstrip()
+        # end if
+    # end for
+    return line
+
 ########################################################################
 def ftype_factory(line, context):
 ########################################################################
     "Return an appropriate type object if there is a match, otherwise None"
     # We have to cut off the line at the end of any possible type info
     # Strip comments first (might have an = character)
-    if '!' in line:
-        line = line[0:line.index('!')].rstrip()
-    # end if
+    line = strip_comment(line)
     ppos = line.find('(')
     cpos = line.find(',')
     if ppos >= 0:
@@ -722,9 +744,7 @@ def parse_fortran_var_decl(line, source, run_env):
     context = source.context
     sline = line.strip()
     # Strip comments first
-    if '!' in sline:
-        sline = sline[0:sline.index('!')].rstrip()
-    # end if
+    sline = strip_comment(sline)
     tobject = ftype_factory(sline, context)
     newvars = list()
     if tobject is not None:
-- 
2.43.0


From 317035c9758ca2143937f22cd199b2937febc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 64/95] fix: read character declarations without a length in
 parentheses

---
 scripts/fortran_tools/parse_fortran.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index c233c4d..2529f7a 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -615,7 +615,7 @@ def ftype_factory(line, context):
     if ppos >= 0:
         if 0 <= cpos < ppos:
             # Whatever parentheses there are, they are not part of type
-            line = line[0:cpos]
+            line = line[0:cpos+1]
         else:
             # Find matching right parenthesis
             depth = 1
@@ -632,7 +632,7 @@ def ftype_factory(line, context):
             line = line[0:pepos+1]
         # end if
     elif cpos >= 0:
-        line = line[0:cpos]
+        line = line[0:cpos+1]
     # end if
     tmatch = Ftype.type_match(line)
     if tmatch is None:
-- 
2.43.0


From 945cecf54a17ffc11e292c16fa584c04ac8eaff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 65/95] fix: accept 'contiguous' and 'intent(in out)' in
 declarations

---
 scripts/fortran_tools/parse_fortran.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index 2529f7a..cf4e56f 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -76,7 +76,8 @@ class Ftype(object):
     __itype_re = re.compile(r"(?i)({})\s*(\([A-Za-z0-9,=_\s]+\))?".format(r"|".join(__intrinsic_types__)))
     __kind_re = re.compile(r"(?i)kind\s*(\()?\s*([\'\"])?(.+?)([\'\"])?\s*(\))?")
 
-    __attr_spec = ['allocatable', 'asynchronous', 'dimension', 'external',
+    __attr_spec = ['allocatable', 'asynchronous', 'contiguous', 'dimension',
+                   'external',
                    'intent', 'intrinsic', 'bind', 'optional', 'parameter',
                    'pointer', 'private', 'protected', 'public', 'save',
                    'target', 'value', 'volatile']
@@ -772,7 +773,7 @@ def parse_fortran_var_decl(line, source, run_env):
                                                    context=context)
                         # end if
                     else:
-                        intent = prop[6:].strip()[1:-1].strip()
+                        intent = ''.join(prop[6:].strip()[1:-1].split())
                     # end if
                 elif prop[0:9:] == 'dimension':
                     dimensions = prop[9:].strip()
-- 
2.43.0


From 034615d158e22f2264acd43aff7f5cf34872c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 66/95] fix: allow blanks around the bounds of a Fortran
 dimension

---
 scripts/metadata_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 0389202..ad0bb4e 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1084,7 +1084,7 @@ class MetadataSection(ParseSource):
                     std_dim.append(std)
                 # end if
             # end if
-            for item in dim.split(':'):
+            for item in [x.strip() for x in dim.split(':')]:
                 try:
                     _ = int(item)
                     dvar = CCPP_CONSTANT_VARS.find_local_name(item)
-- 
2.43.0


From e2d5721b8194edb7310cc1b9660a288477333369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 67/95] fix: name the first of two duplicate metadata tables

---
 scripts/ccpp_capgen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index a9827b7..70ef284 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -464,10 +464,10 @@ def duplicate_item_error(title, filename, itype, orig_item):
     """Raise an error indicating a duplicate item of type, <itype>"""
     errmsg = "Duplicate {typ}, {title}, found in {file}"
     edict = {'title':title, 'file':filename, 'typ':itype}
-    ofile = orig_item.context.filename
-    if ofile is not None:
-        errmsg = errmsg + ", original found in {ofile}"
-        edict['ofile'] = ofile
+    octx = orig_item.start_context(with_comma=False)
+    if octx:
+        errmsg = errmsg + ", original found at {octx}"
+        edict['octx'] = octx
     # end if
     raise CCPPError(errmsg.format(**edict))
 
-- 
2.43.0


From d3ac14b3086407d3115939d8d54b0561db41a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:49 +0000
Subject: [PATCH 68/95] fix: report an unknown property of a metadata variable

---
 scripts/metadata_table.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index ad0bb4e..443c60d 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -908,19 +908,19 @@ class MetadataSection(ParseSource):
                                 # A required attribute needs a value
                                 pval = None
                             # end if
+                            if pval is None:
+                                errmsg = "'{}' property value"
+                                self.__pobj.add_syntax_err(errmsg.format(pname),
+                                                           token=pval_str)
+                                self.__section_valid = False
+                                var_ok = False
+                            # end if
                         else:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
                             self.__section_valid = False
                             var_ok = False
                         # end if
-                        if pval is None:
-                            errmsg = "'{}' property value"
-                            self.__pobj.add_syntax_err(errmsg.format(pname),
-                                                       token=pval_str)
-                            self.__section_valid = False
-                            var_ok = False
-                        # end if
                     # end if
                     if var_ok:
                         # If we get this far, we have a valid property.
-- 
2.43.0


From 06b87398a9b4d2d8d929a7d402430297aab1691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:49 +0000
Subject: [PATCH 69/95] fix: report metadata tables and sections without a name
 or type

---
 scripts/metadata_table.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 443c60d..49c0b2f 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -445,6 +445,12 @@ class MetadataTable():
                 # end if
             # end if
         # end while
+        if not self.table_name:
+            self.__pobj.add_syntax_err("metadata table, no table name")
+        # end if
+        if self.table_type is None:
+            self.__pobj.add_syntax_err("metadata table, no table type")
+        # end if
         if self.__pobj.error_message:
             # Time to dump out error messages
             raise CCPPError(self.__pobj.error_message)
@@ -784,7 +790,7 @@ class MetadataSection(ParseSource):
             # end for
             curr_line, _ = self.__pobj.next_line()
         # end while
-        if self.title is None:
+        if not self.title:
             self.__pobj.add_syntax_err("metadata header start, no table name",
                                        token=curr_line)
             self.__section_valid = False
@@ -1153,7 +1159,7 @@ class MetadataSection(ParseSource):
             mstr = "Section type, '{}', does not match table type, '{}'"
             mismatch += mstr.format(self.header_type, table_type)
         # end if
-        if self.header_type == SCHEME_HEADER_TYPE:
+        if (self.header_type == SCHEME_HEADER_TYPE) and self.title:
             # For schemes, strip off the scheme function phase (e.g., _init)
             sect_func, _, _ = CCPP_STATE_MACH.function_match(self.title)
         else:
-- 
2.43.0


From 04bcc2e476dd7b1d17cca28a7b236754a39b8b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:49 +0000
Subject: [PATCH 70/95] fix: reject text after a metadata table header

---
 scripts/metadata_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 49c0b2f..0bf0c96 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -269,7 +269,7 @@ class MetadataTable():
     (ccpp-table-properties section) and all of the associated table
     sections (ccpp-arg-table sections)."""
 
-    __table_start = re.compile(r"(?i)\s*\[\s*ccpp-table-properties\s*\]")
+    __table_start = re.compile(r"(?i)\s*\[\s*ccpp-table-properties\s*\]\s*(?:[#;].*)?$")
 
     def __init__(self, run_env, table_name_in=None, table_type_in=None,
                  dependencies=None, relative_path=None,
@@ -621,7 +621,7 @@ class MetadataSection(ParseSource):
 
 """
 
-    __header_start = re.compile(r"(?i)\s*\[\s*ccpp-arg-table\s*\]")
+    __header_start = re.compile(r"(?i)\s*\[\s*ccpp-arg-table\s*\]\s*(?:[#;].*)?$")
 
     __var_start = re.compile(r"^\[\s*"+FORTRAN_ID+r"\s*\]$")
 
-- 
2.43.0


From 8cd3b8373bb14f16092d312f3143f59ed8c56a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:49 +0000
Subject: [PATCH 71/95] fix: report the lines of a duplicate local name

---
 scripts/metavar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 580e913..e8f1a90 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1688,9 +1688,9 @@ class VarDictionary(OrderedDict):
             elif ((not exists_ok) or
                   (lvar.get_prop_value('standard_name') != standard_name)):
                 errstr = 'Invalid local_name: {} already registered{}'
-                cstr = context_string(lvar.source.context, with_comma=True)
+                cstr = context_string(lvar.context, with_comma=True)
                 raise ParseSyntaxError(errstr.format(lname, cstr),
-                                       context=newvar.source.context)
+                                       context=newvar.context)
             # end if (no else, things are okay)
         # end if (no else, things are okay)
         # Check if this variable has a parent (i.e., it is an array reference)
-- 
2.43.0


From 99cd01cdcd6272bd6280436e3b801444527de030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:49 +0000
Subject: [PATCH 72/95] fix: reject a second value for a property of a metadata
 variable

---
 scripts/metadata_table.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 0bf0c96..eb66974 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -928,6 +928,14 @@ class MetadataSection(ParseSource):
                             var_ok = False
                         # end if
                     # end if
+                    if ((pname in var_props) or
+                        ((pname == 'type') and ('ddt_type' in var_props)) or
+                        ((pname == 'ddt_type') and ('type' in var_props))):
+                        errmsg = "Duplicate variable property, '{}'"
+                        self.__pobj.add_syntax_err(errmsg.format(pname))
+                        self.__section_valid = False
+                        var_ok = False
+                    # end if
                     if var_ok:
                         # If we get this far, we have a valid property.
                         # Special case for dimensions, turn them into ranges
-- 
2.43.0


From 85b12d6602acce98fb447be8fa184753a158c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:39 +0000
Subject: [PATCH 73/95] fix: list each process of the data table once

---
 scripts/ccpp_datafile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..34a2eef 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -309,7 +309,7 @@ def _retrieve_process_list(table):
     ccpp_datafile.CCPPDatatableError: Could not find 'schemes' element
     """
 
-    result = list()
+    result = set()
     schemes = table.find("schemes")
     if schemes is None:
         raise CCPPDatatableError("Could not find 'schemes' element")
@@ -318,7 +318,7 @@ def _retrieve_process_list(table):
         name = scheme.get("name")
         proc = scheme.get("process")
         if proc:
-            result.append("{}={}".format(proc, name))
+            result.add("{}={}".format(proc, name))
         # end if
     # end for
     return sorted(result)
-- 
2.43.0


From b79838af03310547d3ddeee34225728c16dc3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:39 +0000
Subject: [PATCH 74/95] fix: write the dependencies to the data table in a
 fixed order

---
 scripts/ccpp_datafile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 34a2eef..c92a606 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1178,7 +1178,7 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
             host_depends.add(dep_file)
         # end for
     # end for
-    _add_dependencies(datatable, scheme_depends, host_depends)
+    _add_dependencies(datatable, sorted(scheme_depends), sorted(host_depends))
     # Write tree
     datatable_tree = PrettyElementTree(datatable)
     datatable_tree.write(run_env.datatable_file)
-- 
2.43.0


From 6cdf1fe0a8109d13869f4aed0fcf0d3b5759ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:46 +0000
Subject: [PATCH 75/95] fix: write XML elements without contents whose
 attributes hold a slash

---
 scripts/parse_tools/xml_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/xml_tools.py b/scripts/parse_tools/xml_tools.py
index 164b169..1be2c1c 100644
--- a/scripts/parse_tools/xml_tools.py
+++ b/scripts/parse_tools/xml_tools.py
@@ -22,7 +22,7 @@ _INDENT_STR = "  "
 _XMLLINT = shutil.which('xmllint') # Blank if not installed
 beg_tag_re = re.compile(r"([<][^/][^<>]*[^/][>])")
 end_tag_re = re.compile(r"([<][/][^<>/]+[>])")
-simple_tag_re = re.compile(r"([<][^/][^<>/]+[/][>])")
+simple_tag_re = re.compile(r"([<][^/][^<>]+[/][>])")
 
 # Find python version
 PYSUBVER = sys.version_info[1]
-- 
2.43.0


From 944a3ea65f6b4d00c413482031c6b692c2bc9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 76/95] fix: reach components of nested derived types through
 their full path

---
 scripts/ddt_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..25c78b4 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -38,7 +38,7 @@ class VarDDT(Var):
         source = var_ref.source
         super().__init__(var_ref, source, run_env, context=source.context)
         # Find the correct place for <new_field>
-        if isinstance(var_ref, Var):
+        if (not isinstance(var_ref, VarDDT)) or (var_ref.field is None):
             # We are at a top level DDT var, set our field
             self.__field = new_field
         else:
-- 
2.43.0


From 853b8288c7464ffd5e9a5fe5d516b5b5686be45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 77/95] fix: skip duplicate components of nested derived types
 too

---
 scripts/ddt_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 25c78b4..c6e5728 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -277,7 +277,8 @@ class DDTLibrary(dict):
             if (dvar.is_ddt()) and (dvtype in self):
                 # If DDT in our library, we need to add sub-fields recursively.
                 subddt = self[dvtype]
-                self.collect_ddt_fields(var_dict, subvar, run_env, ddt=subddt)
+                self.collect_ddt_fields(var_dict, subvar, run_env, ddt=subddt,
+                                        skip_duplicates=skip_duplicates)
             # end if
             # add_variable only checks the current dictionary. By default,
             # for a DDT, the variable also cannot be in our parent
-- 
2.43.0


From 741254079765d4fd68e316c95ef80a1b9641a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 78/95] fix: write use statements for derived types in a fixed
 order

---
 scripts/ddt_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index c6e5728..85d27a9 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -320,7 +320,7 @@ class DDTLibrary(dict):
         <variable_list>"""
         pad = max(pad, self.__max_mod_name_len)
         ddt_mods = self.ddt_modules(variable_list)
-        for ddt_mod in ddt_mods:
+        for ddt_mod in sorted(ddt_mods):
             dmod = ddt_mod[0]
             dtype = ddt_mod[1]
             slen = ' '*(pad - len(dmod))
-- 
2.43.0


From cb1156273e9b10ed37a7301c847d74844a9e6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 79/95] fix: allocate local copies of optional variables in a
 fixed order

---
 scripts/suite_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index b86d7e6..585bdf8 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2588,7 +2588,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2621,7 +2621,7 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-- 
2.43.0


From 95d45151c6035fdda09172789e401e728829332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 80/95] fix: accept components of different derived types with
 the same local name

---
 scripts/ddt_library.py |  3 ++-
 scripts/metavar.py     | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 85d27a9..99a3a96 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -294,7 +294,8 @@ class DDTLibrary(dict):
             # end if
             # Add this intrinsic to <var_dict>
             if not pvar:
-                var_dict.add_variable(subvar, run_env)
+                # Components of different DDTs may have the same local name
+                var_dict.add_variable(subvar, run_env, check_local_name=False)
             # end if
         # end for
 
diff --git a/scripts/metavar.py b/scripts/metavar.py
index e8f1a90..3b17263 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1611,12 +1611,14 @@ class VarDictionary(OrderedDict):
         return vlist
 
     def add_variable(self, newvar, run_env, exists_ok=False, gen_unique=False,
-                     adjust_intent=False):
+                     adjust_intent=False, check_local_name=True):
         """Add <newvar> if it does not conflict with existing entries
         If <exists_ok> is True, attempting to add an identical copy is okay.
         If <gen_unique> is True, a new local_name will be created if a
         local_name collision is detected.
-        if <adjust_intent> is True, adjust conflicting intents to inout."""
+        if <adjust_intent> is True, adjust conflicting intents to inout.
+        If <check_local_name> is False, a local_name collision is okay
+        (e.g., components of different DDTs may have the same name)."""
         standard_name = newvar.get_prop_value('standard_name')
         cvar = self.find_variable(standard_name=standard_name, any_scope=False)
         if (standard_name in self) and (not exists_ok):
@@ -1679,7 +1681,11 @@ class VarDictionary(OrderedDict):
             # end if
         # end if
         lname = newvar.get_prop_value('local_name')
-        lvar = self.find_local_name(lname)
+        if check_local_name:
+            lvar = self.find_local_name(lname)
+        else:
+            lvar = None
+        # end if
         if lvar is not None:
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
-- 
2.43.0


From e049f528e11d646d660b3051944afed1160bfddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 81/95] fix: declare pointers for optional arguments of groups
 without local variables

---
 scripts/suite_objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 585bdf8..a683b40 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2427,7 +2427,7 @@ class Group(SuiteObject):
                     else:
                         dimstr = ''
                     # end if
-                    pointer_var_set.append([name,kind,dimstr,vtype])
+                    pointer_var_set.append([cvar,name,kind,dimstr,vtype])
                 # end if
             # end for
             # Any optional arguments that are not requested by the host need to have
@@ -2446,7 +2446,7 @@ class Group(SuiteObject):
                 else:
                     dimstr = ''
                 # end if
-                pointer_var_set.append([name,kind,dimstr,vtype])
+                pointer_var_set.append([ivar,name,kind,dimstr,vtype])
             # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
@@ -2531,7 +2531,7 @@ class Group(SuiteObject):
                           target=target)
         # end for
         # Pointer variables
-        for (name, kind, dim, vtype) in pointer_var_set:
+        for (var, name, kind, dim, vtype) in pointer_var_set:
             var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
         # end for
         outfile.write('', 0)
@@ -2628,7 +2628,7 @@ class Group(SuiteObject):
         if pointer_var_set:
             outfile.write('\n! Nullify local pointers', indent+1)
         # end if
-        for (name, kind, dim, vtype) in pointer_var_set:
+        for (_, name, kind, dim, vtype) in pointer_var_set:
             #cspace = ' '*(15-len(name))
             outfile.write('if (associated({})) {} nullify({})'.format(name,' '*(15-len(name)),name), indent+1)
         # end fo
-- 
2.43.0


From 9032f7738976d5b1e8b55b7259c3e65225596d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 82/95] fix: convert vertical variables wherever the vertical
 dimension is in the argument list

---
 scripts/suite_objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index a683b40..c6b1ecf 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1657,6 +1657,16 @@ class Scheme(SuiteObject):
            vdims  = vert_dim.split(':')
            vdim_name  = vdims[-1]
            group_vvar = self.__group.call_list.find_variable(vdim_name)
+           if group_vvar is None:
+               # The dimension is not (yet) an argument of the group, add it
+               group_vvar = self.__group.find_variable(vdim_name)
+               if group_vvar is not None:
+                   self.__group.add_call_list_variable(group_vvar,
+                                                       exists_ok=True,
+                                                       gen_unique=True)
+                   group_vvar = self.__group.call_list.find_variable(vdim_name)
+               # end if
+           # end if
            if group_vvar is None:
                raise CCPPError(f"add_var_transform: Cannot find dimension variable, {vdim_name}")
            # end if
-- 
2.43.0


From e7a37d43e35a4743b999bc24eb8c2a3b2d71bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:28 +0000
Subject: [PATCH 83/95] fix: declare group arguments with the kind of the
 variable, not of the converted copy

---
 scripts/suite_objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index c6b1ecf..210f60b 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -926,6 +926,10 @@ class SuiteObject(VarDictionary):
             else:
                 sdict = {'dimensions':new_dict_dims}
             # end if
+            # A different kind is converted inside of the group
+            if var.compatible(dict_var, run_env).has_kind_transforms:
+                sdict['kind'] = dict_var.get_prop_value('kind')
+            # end if
             found_var = self.parent.add_variable_to_call_tree(var,
                                                               subst_dict=sdict)
             if not match:
-- 
2.43.0


From 8c0cba74c5c36710bcdde4443a2d66bae0ce83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:28 +0000
Subject: [PATCH 84/95] fix: pass the variables of active conditions to the
 groups which use them

---
 scripts/suite_objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 210f60b..4577656 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1285,6 +1285,14 @@ class Scheme(SuiteObject):
             # If so, declare localpointer variable. This is needed to
             # pass inactive (not present) status through the caps.
             if var.get_prop_value('optional'):
+                if dict_var is not None:
+                    # The group needs the variables of the conditional
+                    var_dicts = [self.__group.call_list] + self.__group.suite_dicts()
+                    (_, vars_needed) = dict_var.conditional(var_dicts)
+                    for var_needed in vars_needed:
+                        self.update_group_call_list_variable(var_needed)
+                    # end for
+                # end if
                 newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
                 self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
             # end if
-- 
2.43.0


From 808be333bcba2c93155b92074b0ded901158dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:28 +0000
Subject: [PATCH 85/95] fix: size local copies of converted arguments by the
 dimensions passed to the group

---
 scripts/suite_objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4577656..fb23deb 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1277,7 +1277,7 @@ class Scheme(SuiteObject):
             if compat_obj is not None and (compat_obj.has_vert_transforms or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
-                self.add_var_transform(var, compat_obj, vert_dim)
+                self.add_var_transform(var, compat_obj, vert_dim, new_dims)
                 has_transform = True
             # end if
 
@@ -1633,17 +1633,19 @@ class Scheme(SuiteObject):
             # end if
         # end if
 
-    def add_var_transform(self, var, compat_obj, vert_dim):
+    def add_var_transform(self, var, compat_obj, vert_dim, call_dims):
         """Register any variable transformation needed by <var> for this Scheme.
         For any transformation identified in <compat_obj>, create dummy variable
         from <var> to perform the transformation. Determine the indices needed
-        for the transform and save for use during write stage"""
+        for the transform and save for use during write stage.
+        <call_dims> are the dimensions of <var> in the Group."""
 
         # Add local variable (<var(local_name)>_local) needed for transformation.
         # Do not let the Group manage this variable. Handle local var
         # when writing Group.
         prop_dict = var.copy_prop_dict()
         prop_dict['local_name'] = var.get_prop_value('local_name')+'_local'
+        prop_dict['dimensions'] = list(call_dims)
         # This is a local variable.
         if 'intent' in prop_dict:
             del prop_dict['intent']
-- 
2.43.0


From d1718d21d9ad46a94bf73a1bf0b54556e7bc8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:10 +0000
Subject: [PATCH 86/95] fix: pass the converted copy of arguments which are
 only written

---
 scripts/suite_objects.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index fb23deb..f6173f1 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -105,14 +105,15 @@ class CallList(VarDictionary):
         super().add_variable(newvar, run_env, exists_ok=exists_ok,
                              gen_unique=gen_unique, adjust_intent=adjust_intent)
 
-    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lname_list=None):
+    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lnames=None):
         """Return a dummy argument string for this call list.
         <cldict> may be a list of VarDictionary objects to search for
         local_names (default is to use self).
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lnames> may be a dictionary of local_name substitutions. Each
+        key is a standard name.
         """
         arg_str = ""
         arg_sep = ""
@@ -159,13 +160,9 @@ class CallList(VarDictionary):
                 # Modify Scheme call_list to handle local_name change for this var.
                 # Are there any variable transforms for this scheme?
                 # If so, change Var's local_name need to local dummy array containing
-                # transformed argument, var_trans_local.
-                if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
-                        if (sname == stdname):
-                            lname = var_trans_local
-                        # end if
-                    # end for
+                # transformed argument.
+                if sub_lnames:
+                    lname = sub_lnames.get(stdname, lname)
                 # end if
                 if is_func_call:
                     if cldicts is not None:
@@ -1772,10 +1769,13 @@ class Scheme(SuiteObject):
         #    or our module
         cldicts = [self.__group, self.__group.call_list]
         cldicts.extend(self.__group.suite_dicts())
+        # Use the local copy of any variable which needs a transform
+        sub_lnames = {x[2]:x[0] for x in self.__reverse_transforms}
+        sub_lnames.update({x[1]:x[2] for x in self.__forward_transforms})
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lnames=sub_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
-- 
2.43.0


From f1afa170cba5cd50ecfde854ccbfde8fa2c7b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 87/95] fix: give local copies of different arguments different
 names

---
 scripts/suite_objects.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index f6173f1..22e4a59 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1641,8 +1641,10 @@ class Scheme(SuiteObject):
         # Do not let the Group manage this variable. Handle local var
         # when writing Group.
         prop_dict = var.copy_prop_dict()
-        prop_dict['local_name'] = var.get_prop_value('local_name')+'_local'
         prop_dict['dimensions'] = list(call_dims)
+        copy_name = self.__group.copy_name(var.get_prop_value('local_name'),
+                                           '_local', prop_dict)
+        prop_dict['local_name'] = copy_name
         # This is a local variable.
         if 'intent' in prop_dict:
             del prop_dict['intent']
@@ -1651,8 +1653,8 @@ class Scheme(SuiteObject):
                               ParseSource(_API_SOURCE_NAME,
                                           _API_LOCAL_VAR_NAME, var.context),
                               self.run_env)
-        found = self.__group.find_variable(source_var=local_trans_var, any_scope=False)
-        if not found:
+        if copy_name not in [x.get_prop_value('local_name')
+                             for x in self.__group.transform_locals]:
             lmsg = "Adding new local variable, '{}', for variable transform"
             self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
             self.__group.transform_locals.append(local_trans_var)
@@ -2206,6 +2208,7 @@ class Group(SuiteObject):
         self._set_state = None
         self._ddt_library = None
         self.transform_locals = list()
+        self.__copy_names = {}
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2333,6 +2336,25 @@ class Group(SuiteObject):
             self.run_env.logger.debug("{}".format(self))
         # end if
 
+    def copy_name(self, lname, suffix, prop_dict):
+        """Return the name of a local copy of (or a local pointer to) the
+        scheme argument, <lname>, with properties, <prop_dict>. The name is
+        <lname> followed by <suffix> and, if necessary, a number.
+        Copies with the same declaration of the same variable share a name.
+        """
+        facts = [prop_dict.get(x) for x in ('standard_name', 'type', 'ddt_type',
+                                            'kind', 'dimensions', 'optional')]
+        name = lname + suffix
+        index = 0
+        while ((self.__copy_names.get(name.lower(), (name, facts))[1] != facts) or
+               (len(name) > 63) or self.find_local_name(name) or
+               self.call_list.find_local_name(name)):
+            index += 1
+            new_suffix = suffix + str(index)
+            name = lname[0:63-len(new_suffix)] + new_suffix
+        # end while
+        return self.__copy_names.setdefault(name.lower(), (name, facts))[0]
+
     def allocate_dim_str(self, dims, context):
         """Create the dimension string for an allocate statement"""
         rdims = list()
-- 
2.43.0


From 4b0f99a0a48c166414422fb3d46d54db51ec5d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 88/95] fix: point the pointers of optional arguments to the
 variables they stand for

---
 scripts/suite_objects.py | 116 ++++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 50 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 22e4a59..658c8c3 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -143,11 +143,6 @@ class CallList(VarDictionary):
                         raise CCPPError(errmsg.format(stdname, clnames))
                     # end if
                     lname = dvar.get_prop_value('local_name')
-                    # Optional variables in the caps are associated with 
-                    # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
-                        lname = dummy+'_ptr'
-                    # end if
                 else:
                     cldict = None
                     aref = var.array_ref(local_name=dummy)
@@ -176,7 +171,8 @@ class CallList(VarDictionary):
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
-                    if _BLANK_DIMS_RE.match(vdims) is None:
+                    if ((_BLANK_DIMS_RE.match(vdims) is None) and
+                        (not var.get_prop_value('optional'))):
                         lname = lname + vdims
                     # end if
                 # end if
@@ -1290,7 +1286,7 @@ class Scheme(SuiteObject):
                         self.update_group_call_list_variable(var_needed)
                     # end for
                 # end if
-                newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
+                newvar_ptr = self.__group.optional_pointer(var, new_dims)
                 self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
             # end if
 
@@ -1597,32 +1593,48 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Write local pointer association for optional variables."""
+    def group_var_lname(self, stdname, cldicts, copy_lname):
+        """Return the local name, in our group, of the variable passed to this
+        scheme with standard name, <stdname>, or None if there is no such
+        variable. <copy_lname> is the name of its transformed copy (or None)."""
+        for cldict in cldicts:
+            dvar = cldict.find_variable(standard_name=stdname,
+                                        any_scope=False)
+            if dvar is not None:
+                lname = copy_lname or dvar.get_prop_value('local_name')
+                cvar = self.call_list.find_variable(standard_name=stdname)
+                run_phase = self.run_phase()
+                # We only need dimensions for suite variables in run phase
+                need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                vdims = cvar.call_dimstring(var_dicts=cldicts,
+                                            explicit_dims=need_dims,
+                                            loop_subst=run_phase)
+                if _BLANK_DIMS_RE.match(vdims) is None:
+                    lname += vdims
+                # end if
+                return lname
+            # end if
+        # end for
+        return copy_lname
+
+    def associate_optional_var(self, dict_var, lname, var_ptr, cldicts, indent, outfile):
+        """Write local pointer association for optional variables.
+        <lname> is the variable (or its transformed copy) to point to."""
         if (dict_var):
             (conditional, _) = dict_var.conditional(cldicts)
-            if (has_transform):
-                lname = var.get_prop_value('local_name')+'_local'
-            else:
-                lname = var.get_prop_value('local_name')
-            # end if
             lname_ptr = var_ptr.get_prop_value('local_name')
             outfile.write(f"if {conditional} then", indent)
             outfile.write(f"{lname_ptr} => {lname}", indent+1)
             outfile.write(f"end if", indent)
         # end if
 
-    def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Assign local pointer to variable."""
+    def assign_pointer_to_var(self, dict_var, var, lname, var_ptr, cldicts, indent, outfile):
+        """Assign local pointer to variable.
+        <lname> is the variable (or its transformed copy) pointed to."""
         if (dict_var):
             intent = var.get_prop_value('intent')
             if (intent == 'out' or intent == 'inout'):
                 (conditional, _) = dict_var.conditional(cldicts)
-                if (has_transform):
-                    lname = var.get_prop_value('local_name')+'_local'
-                else:
-                    lname = var.get_prop_value('local_name')
-                # end if
                 lname_ptr = var_ptr.get_prop_value('local_name')
                 outfile.write(f"if {conditional} then", indent)
                 outfile.write(f"{lname} = {lname_ptr}", indent+1)
@@ -1774,6 +1786,14 @@ class Scheme(SuiteObject):
         # Use the local copy of any variable which needs a transform
         sub_lnames = {x[2]:x[0] for x in self.__reverse_transforms}
         sub_lnames.update({x[1]:x[2] for x in self.__forward_transforms})
+        opt_lnames = {}
+        for (_, var, var_ptr, _) in self.__optional_vars:
+            # The call passes the pointer, which points to the variable
+            stdname = var.get_prop_value('standard_name')
+            opt_lnames[stdname] = self.group_var_lname(stdname, cldicts,
+                                                       sub_lnames.get(stdname))
+            sub_lnames[stdname] = var_ptr.get_prop_value('local_name')
+        # end for
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
@@ -1822,8 +1842,9 @@ class Scheme(SuiteObject):
         if self.__optional_vars:
             outfile.write('! Associate conditional variables', indent+1)
         # end if 
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            tstmt = self.associate_optional_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+        for (dict_var, var, var_ptr, _) in self.__optional_vars:
+            lname = opt_lnames[var.get_prop_value('standard_name')]
+            self.associate_optional_var(dict_var, lname, var_ptr, cldicts, indent+1, outfile)
         # end for
         # 
         # Write the scheme call.
@@ -1839,12 +1860,13 @@ class Scheme(SuiteObject):
         # Copy any local pointers.
         #
         first_ptr_declaration=True
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
+        for (dict_var, var, var_ptr, _) in self.__optional_vars:
             if first_ptr_declaration: 
                 outfile.write('! Copy any local pointers to dummy/local variables', indent+1)
                 first_ptr_declaration=False
             # end if
-            tstmt = self.assign_pointer_to_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+            lname = opt_lnames[var.get_prop_value('standard_name')]
+            self.assign_pointer_to_var(dict_var, var, lname, var_ptr, cldicts, indent+1, outfile)
         # end for
         outfile.write('',indent+1)
         #
@@ -2208,6 +2230,7 @@ class Group(SuiteObject):
         self._set_state = None
         self._ddt_library = None
         self.transform_locals = list()
+        self.optional_pointers = list()
         self.__copy_names = {}
 
     def phase_match(self, scheme_name):
@@ -2355,6 +2378,19 @@ class Group(SuiteObject):
         # end while
         return self.__copy_names.setdefault(name.lower(), (name, facts))[0]
 
+    def optional_pointer(self, var, call_dims):
+        """Return a local pointer for the optional scheme argument, <var>, with
+        dimensions, <call_dims>"""
+        prop_dict = var.copy_prop_dict(subst_dict={'dimensions':list(call_dims)})
+        name = self.copy_name(var.get_prop_value('local_name'), '_ptr', prop_dict)
+        for ptr in self.optional_pointers:
+            if ptr.get_prop_value('local_name') == name:
+                return ptr
+            # end if
+        # end for
+        self.optional_pointers.append(var.clone(name))
+        return self.optional_pointers[-1]
+
     def allocate_dim_str(self, dims, context):
         """Create the dimension string for an allocate statement"""
         rdims = list()
@@ -2455,31 +2491,11 @@ class Group(SuiteObject):
                     # end if
                 # end if
             # end for
-            # All optional dummy variables within group need to have 
-            # an associated pointer array declared. 
-            for cvar in self.call_list.variable_list():
-                opt_var = cvar.get_prop_value('optional')
-                if opt_var:
-                    name = cvar.get_prop_value('local_name')+'_ptr'
-                    kind = cvar.get_prop_value('kind')
-                    dims = cvar.get_dimensions()
-                    if cvar.is_ddt():
-                        vtype = 'type'
-                    else:
-                        vtype = cvar.get_prop_value('type')
-                    # end if
-                    if dims:
-                        dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                    else:
-                        dimstr = ''
-                    # end if
-                    pointer_var_set.append([cvar,name,kind,dimstr,vtype])
-                # end if
-            # end for
-            # Any optional arguments that are not requested by the host need to have
-            # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
-                name = ivar.get_prop_value('local_name')+'_ptr'
+            # All optional scheme arguments need to have an associated pointer
+            # declared. Any optional arguments that are not requested by the host
+            # have a local null pointer passed from the group to the scheme.
+            for ivar in self.optional_pointers:
+                name = ivar.get_prop_value('local_name')
                 kind = ivar.get_prop_value('kind')
                 dims = ivar.get_dimensions()
                 if ivar.is_ddt():
-- 
2.43.0


From 3e5cad1c183c0cab67fd2148336a1e253933ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:38 +0000
Subject: [PATCH 89/95] fix: convert optional arguments only where they are
 active

---
 scripts/suite_objects.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 658c8c3..b6f26a9 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1775,6 +1775,30 @@ class Scheme(SuiteObject):
         # end if
         outfile.write(stmt, indent)
 
+    def write_transform(self, stdname, dummy, rindices, lindices, compat_obj,
+                        cldicts, outfile, indent, forward):
+        """Write the transformation between the variable with standard name,
+        <stdname>, and its copy, <dummy>, to <outfile>. An optional argument
+        is only transformed when it is active.
+        See write_var_transform for the other arguments."""
+        condition = '.true.'
+        for (dict_var, var, _, _) in self.__optional_vars:
+            if dict_var and (var.get_prop_value('standard_name') == stdname):
+                (condition, _) = dict_var.conditional(cldicts)
+            # end if
+        # end for
+        lvar = self.__group.call_list.find_variable(standard_name=stdname)
+        lvar_lname = lvar.get_prop_value('local_name')
+        if condition != '.true.':
+            outfile.write(f"if {condition} then", indent)
+            indent += 1
+        # end if
+        self.write_var_transform(lvar_lname, dummy, rindices, lindices,
+                                 compat_obj, outfile, indent, forward)
+        if condition != '.true.':
+            outfile.write("end if", indent-1)
+        # end if
+
     def write(self, outfile, errcode, errmsg, indent):
         # Unused arguments are for consistent write interface
         # pylint: disable=unused-argument
@@ -1831,9 +1855,7 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            self.write_transform(var_sname, dummy, rindices, lindices, compat_obj, cldicts, outfile, indent+1, False)
         # end for
         outfile.write('',indent+1)
         #
@@ -1881,9 +1903,7 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            self.write_transform(var_sname, dummy, rindices, lindices, compat_obj, cldicts, outfile, indent+1, True)
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
-- 
2.43.0


From 7dc606ecd09f4cae8e79dcc2d9e6518e3298dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:49 +0000
Subject: [PATCH 90/95] fix: find the horizontal extent of variables made by
 the first scheme of a group

---
 scripts/suite_objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index b6f26a9..29c0b5f 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2298,6 +2298,12 @@ class Group(SuiteObject):
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
+            for dim in vdims:
+                vmatch = VarDictionary.loop_var_match(dim)
+                if vmatch is not None:
+                    self.add_variable_to_call_tree(None, vmatch=vmatch)
+                # end if
+            # end for
             hdims = [x.missing_stdname for x in self._loop_var_matches]
         else:
             # Do not do loop substitutions in full phases
-- 
2.43.0


From 49b74b0dbe8dae0868c8685908677d961c6d8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:06 +0000
Subject: [PATCH 91/95] fix: put the condition of optional and conditional
 variables in parentheses

---
 scripts/suite_objects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 29c0b5f..dae6c43 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1487,7 +1487,7 @@ class Scheme(SuiteObject):
                 tmp_indent = indent
                 if conditional != '.true.':
                     tmp_indent = indent + 1
-                    outfile.write(f"if {conditional} then", indent)
+                    outfile.write(f"if ({conditional}) then", indent)
                 # end if
                 outfile.write(f"! Assign value of {local_name} to {internal_var_lname}", tmp_indent)
                 outfile.write(f"{internal_var_lname} = {local_name}", tmp_indent)
@@ -1563,7 +1563,7 @@ class Scheme(SuiteObject):
             tmp_indent = indent
             if conditional != '.true.':
                 tmp_indent = indent + 1
-                outfile.write(f"if {conditional} then", indent)
+                outfile.write(f"if ({conditional}) then", indent)
             # end if
             outfile.write(f"! Check size of array {local_name}", tmp_indent)
             outfile.write(f"if (size({local_name}{dim_string}) /= {array_size}) then", tmp_indent)
@@ -1583,7 +1583,7 @@ class Scheme(SuiteObject):
                 tmp_indent = indent
                 if conditional != '.true.':
                     tmp_indent = indent + 1
-                    outfile.write(f"if {conditional} then", indent)
+                    outfile.write(f"if ({conditional}) then", indent)
                 # end if
                 outfile.write(f"! Assign lower/upper bounds of {local_name} to {internal_var_lname}", tmp_indent)
                 outfile.write(f"{internal_var_lname} = {local_name}{lbound_string}", tmp_indent)
@@ -1623,7 +1623,7 @@ class Scheme(SuiteObject):
         if (dict_var):
             (conditional, _) = dict_var.conditional(cldicts)
             lname_ptr = var_ptr.get_prop_value('local_name')
-            outfile.write(f"if {conditional} then", indent)
+            outfile.write(f"if ({conditional}) then", indent)
             outfile.write(f"{lname_ptr} => {lname}", indent+1)
             outfile.write(f"end if", indent)
         # end if
@@ -1636,7 +1636,7 @@ class Scheme(SuiteObject):
             if (intent == 'out' or intent == 'inout'):
                 (conditional, _) = dict_var.conditional(cldicts)
                 lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
+                outfile.write(f"if ({conditional}) then", indent)
                 outfile.write(f"{lname} = {lname_ptr}", indent+1)
                 outfile.write(f"end if", indent)
             # end if
@@ -1790,7 +1790,7 @@ class Scheme(SuiteObject):
         lvar = self.__group.call_list.find_variable(standard_name=stdname)
         lvar_lname = lvar.get_prop_value('local_name')
         if condition != '.true.':
-            outfile.write(f"if {condition} then", indent)
+            outfile.write(f"if ({condition}) then", indent)
             indent += 1
         # end if
         self.write_var_transform(lvar_lname, dummy, rindices, lindices,
-- 
2.43.0


From 2278cc52bcb260bf7b739fd6182b2e4274da3b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:39 +0000
Subject: [PATCH 92/95] fix: declare optional and target attributes of all
 variables, once

---
 scripts/metavar.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 3b17263..83f2f2f 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1086,7 +1086,11 @@ class Var:
         # end if
         optional = self.get_prop_value('optional')
         if protected and dummy:
-            intent_str = 'intent(in)   '
+            if optional:
+                intent_str = 'intent(in),   target, optional '
+            else:
+                intent_str = 'intent(in)   '
+            # end if
         elif allocatable:
             if dimstr or polymorphic:
                 intent_str = 'allocatable         '
@@ -1100,6 +1104,9 @@ class Var:
             alloval = self.get_prop_value('allocatable')
             if (intent.lower()[-3:] == 'out') and alloval:
                 intent_str = f"allocatable, intent({intent}){' '*(5 - len(intent))}"
+                if optional:
+                    intent_str += ', target, optional '
+                # end if
             elif optional:
                 intent_str = f"intent({intent}),{' '*(5 - len(intent))}"
                 intent_str += 'target, optional '
@@ -1116,7 +1123,8 @@ class Var:
         else:
             comma = ' '
         # end if
-        if self.get_prop_value('target'):
+        if ((self.get_prop_value('target') or target) and
+            ('target' not in intent_str)):
             targ = ", target"
         else:
             targ = ""
-- 
2.43.0


From 8044e58be550130ce9385ccfc2acb298d1842249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:53 +0000
Subject: [PATCH 93/95] fix: declare variables which are passed as optional
 arguments as targets

---
 scripts/ccpp_suite.py    |  4 +++-
 scripts/metavar.py       |  7 +++++--
 scripts/suite_objects.py | 18 ++++++++++++++----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..bdc639d 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -559,9 +559,11 @@ character(len=16) :: {css_var_name} = '{state}'
             const_dict.declare_public_interfaces(outfile, 1)
             # Declare constituent private suite interfaces and data
             const_dict.declare_private_data(outfile, 1)
+            targets = set().union(*[x.target_names() for x in self.__groups])
             outfile.write('\n! Private suite variables', 1)
             for svar in self.keys():
-                self[svar].write_def(outfile, 1, self, allocatable=True)
+                self[svar].write_def(outfile, 1, self, allocatable=True,
+                                     target=svar in targets)
             # end for
             outfile.end_module_header()
             for group in self.__groups:
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 83f2f2f..109ce94 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1912,14 +1912,17 @@ class VarDictionary(OrderedDict):
         return plist
 
     def declare_variables(self, outfile, indent, dummy=False,
-                          std_vars=True, loop_vars=True, consts=True):
-        """Write out the declarations for this dictionary's variables"""
+                          std_vars=True, loop_vars=True, consts=True,
+                          targets=()):
+        """Write out the declarations for this dictionary's variables.
+        Variables whose standard names are in <targets> are targets."""
         for standard_name in self.keys():
             var = self.find_variable(standard_name=standard_name,
                                      any_scope=False)
             if self.include_var_in_list(var, std_vars=std_vars,
                                         loop_vars=loop_vars, consts=consts):
                 self[standard_name].write_def(outfile, indent, self,
+                                              target=standard_name in targets,
                                               dummy=dummy)
             # end if
         # end for
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index dae6c43..988417c 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2417,6 +2417,11 @@ class Group(SuiteObject):
         self.optional_pointers.append(var.clone(name))
         return self.optional_pointers[-1]
 
+    def target_names(self):
+        """Return the standard names of the variables to which the pointers
+        for optional scheme arguments of this group point"""
+        return {x.get_prop_value('standard_name') for x in self.optional_pointers}
+
     def allocate_dim_str(self, dims, context):
         """Create the dimension string for an allocate statement"""
         rdims = list()
@@ -2587,7 +2592,9 @@ class Group(SuiteObject):
             self.run_env.logger.isEnabledFor(logging.DEBUG)):
             self.run_env.logger.debug(msg.format(self.name, call_vars))
         # end if
-        self.call_list.declare_variables(outfile, indent+1, dummy=True)
+        targets = self.target_names()
+        self.call_list.declare_variables(outfile, indent+1, dummy=True,
+                                         targets=targets)
         # DECLARE local variables
         if subpart_allocate_vars or subpart_scalar_vars or subpart_optional_vars:
             outfile.write('\n! Local Variables', indent+1)
@@ -2596,7 +2603,8 @@ class Group(SuiteObject):
         for key in subpart_scalar_vars:
             var = subpart_scalar_vars[key][0]
             spdict = subpart_scalar_vars[key][1]
-            target = subpart_scalar_vars[key][2]
+            target = (subpart_scalar_vars[key][2] or
+                      (var.get_prop_value('standard_name') in targets))
             var.write_def(outfile, indent+1, spdict,
                           allocatable=False, target=target)
         # end for
@@ -2604,7 +2612,8 @@ class Group(SuiteObject):
         for key in subpart_allocate_vars:
             var = subpart_allocate_vars[key][0]
             spdict = subpart_allocate_vars[key][1]
-            target = subpart_allocate_vars[key][2]
+            target = (subpart_allocate_vars[key][2] or
+                      (var.get_prop_value('standard_name') in targets))
             var.write_def(outfile, indent+1, spdict,
                           allocatable=(key in allocatable_var_set),
                           target=target)
@@ -2613,7 +2622,8 @@ class Group(SuiteObject):
         for key in subpart_optional_vars:
             var = subpart_optional_vars[key][0]
             spdict = subpart_optional_vars[key][1]
-            target = subpart_optional_vars[key][2]
+            target = (subpart_optional_vars[key][2] or
+                      (var.get_prop_value('standard_name') in targets))
             var.write_def(outfile, indent+1, spdict,
                           allocatable=(key in optional_var_set),
                           target=target)
-- 
2.43.0


From d8fed2f974e0fb41d5d384e243689200fd8acb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:32 +0000
Subject: [PATCH 94/95] fix: convert variables of the suite, for the columns of
 the call only

---
 scripts/suite_objects.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 988417c..f2525b1 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1654,6 +1654,16 @@ class Scheme(SuiteObject):
         # when writing Group.
         prop_dict = var.copy_prop_dict()
         prop_dict['dimensions'] = list(call_dims)
+        if self.run_phase():
+            # Only the columns of this call are transformed
+            vmatch = VarDictionary.loop_var_match('horizontal_loop_extent')
+            for index, dim in enumerate(call_dims):
+                if ((dim.split(':')[-1] == 'horizontal_dimension') and
+                    self.parent.add_variable_to_call_tree(None, vmatch=vmatch)):
+                    prop_dict['dimensions'][index] = ':'.join(vmatch.required_stdnames)
+                # end if
+            # end for
+        # end if
         copy_name = self.__group.copy_name(var.get_prop_value('local_name'),
                                            '_local', prop_dict)
         prop_dict['local_name'] = copy_name
@@ -1670,6 +1680,13 @@ class Scheme(SuiteObject):
             lmsg = "Adding new local variable, '{}', for variable transform"
             self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
             self.__group.transform_locals.append(local_trans_var)
+            emsg = self.__group.add_variable_dimensions(local_trans_var,
+                                                        _API_LOCAL_VAR_TYPES,
+                                                        adjust_intent=True,
+                                                        to_dict=self.__group.call_list)
+            if emsg:
+                raise CCPPError(emsg)
+            # end if
         # end if
 
         # Create indices (default) for transform.
@@ -1787,8 +1804,28 @@ class Scheme(SuiteObject):
                 (condition, _) = dict_var.conditional(cldicts)
             # end if
         # end for
-        lvar = self.__group.call_list.find_variable(standard_name=stdname)
+        for cldict in cldicts:
+            lvar = cldict.find_variable(standard_name=stdname, any_scope=False)
+            if lvar is not None:
+                break
+            # end if
+        # end for
+        if lvar is None:
+            errmsg = "{}: '{}', not found"
+            raise CCPPError(errmsg.format(self.subroutine_name, stdname))
+        # end if
         lvar_lname = lvar.get_prop_value('local_name')
+        if SuiteObject.is_suite_variable(lvar) and self.run_phase():
+            # Leave the other columns of a suite variable alone
+            cvar = self.call_list.find_variable(standard_name=stdname)
+            vdims = cvar.call_dimstring(var_dicts=cldicts, explicit_dims=True,
+                                        loop_subst=True)
+            vdims = [x.strip() for x in vdims.strip()[1:-1].split(',')]
+            if len(vdims) == len(rindices):
+                lindices = [y if x == ':' else x for x, y in zip(lindices, vdims)]
+                rindices = [y if x == ':' else x for x, y in zip(rindices, vdims)]
+            # end if
+        # end if
         if condition != '.true.':
             outfile.write(f"if ({condition}) then", indent)
             indent += 1
-- 
2.43.0


From 9498fac8fbcfc1071001429f33eaf282da10740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 95/95] fix: find the columns of suite variables in groups
 without other horizontal variables

---
 scripts/suite_objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index f2525b1..c2229b6 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -883,6 +883,16 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            if self.run_phase():
+                # The call passes the columns of this run
+                vmatch = VarDictionary.loop_var_match('horizontal_loop_extent')
+                for dim in new_vdims:
+                    if dim.split(':')[-1] == 'horizontal_dimension':
+                        self.parent.add_variable_to_call_tree(None,
+                                                              vmatch=vmatch)
+                    # end if
+                # end for
+            # end if
         else:
             # Check dimensions
             dict_dims = dict_var.get_dimensions()
-- 
2.43.0

