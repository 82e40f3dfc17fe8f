From 8a108fa4328f6399a1e50752e53c404ac5a3252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 001/158] fix: renumber the lines when blank lines are dropped
 while parsing

---
 ciscoconfparse/ciscoconfparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..df56a1a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5827,6 +5827,8 @@ class ConfigList(MutableSequence):
                 if obj.text.strip() != "" or obj.blank_line_keep is True
             ]
             self._list = retval
+            # Dropping blank lines shifts all following lines...
+            self.reassign_linenums()
 
         return retval
 
-- 
2.43.0


From d5c5607423877a03c40f3b6b17042bbc0e67f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 002/158] fix: keep banner and macro lines out of the children
 of any other line

---
 ciscoconfparse/ciscoconfparse.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index df56a1a..473f0cd 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5542,6 +5542,17 @@ class ConfigList(MutableSequence):
 
         return parent_siblings, nonparent_siblings
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _adopt_child(self, parent, child):
+        """Make `child` a child of `parent`, and remove it from the children of the parent which was assigned by indentation (if any)."""
+        if child.parent is not child and child.parent is not parent:
+            child.parent.children = [ii for ii in child.parent.children if ii is not child]
+        if not any(ii is child for ii in parent.children):
+            parent.children.append(child)
+            parent.children.sort(key=lambda ii: ii.linenum)
+        child.parent = parent
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def _banner_mark_regex(self, regex):
@@ -5623,9 +5634,8 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
+                        self._adopt_child(parent, obj)
                         parent.child_indent = 0
-                        obj.parent = parent
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5635,9 +5645,8 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
+                    self._adopt_child(parent, obj)
                     parent.child_indent = 0
-                    obj.parent = parent
                     obj.blank_line_keep = True
 
                 except IndexError:
@@ -5665,8 +5674,7 @@ class ConfigList(MutableSequence):
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                self._adopt_child(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From d4d4c336fa0fe362de61f32f157b492f37562371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 003/158] fix: parse an IOS macro which has no terminating @
 line

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 473f0cd..3e3fa1d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5671,6 +5671,9 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
+                if idx >= len(self._list):
+                    # The macro is missing the terminating '@' character
+                    break
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-- 
2.43.0


From 064db49d8a19336db7897c686cf73a0ff18da38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 004/158] fix: find the end of a banner whose delimiter is a
 letter of the banner command

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 3e3fa1d..abcfd34 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5599,7 +5599,8 @@ class ConfigList(MutableSequence):
             while bannerdelimit is not None:
                 ## Check whether the banner line has both begin and end delimter
                 if idx == parent.linenum:
-                    parts = parent.text.split(bannerdelimit)
+                    # Do not look for the delimiter in the banner command
+                    parts = parent.text[mm.start("bchar"):].split(bannerdelimit)
                     if len(parts) > 2:
                         ## banner has both begin and end delimiter on one line
                         if self.debug > 0:
-- 
2.43.0


From 9a4d356458ff1784f728f9a6210e7b8727eaec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 005/158] fix: read the configuration from a pathlib.Path

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index abcfd34..0d924d1 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -725,7 +725,7 @@ class CiscoConfParse(object):
         self.encoding = encoding or ENCODING
         self.read_only = read_only
 
-        if len(config) > 0:
+        if not isinstance(config, pathlib.Path) and len(config) > 0:
             try:
                 correct_element_types = []
                 for ii in config:
-- 
2.43.0


From cb8b943ed2cecc8194246eedb4e3785ea101a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 006/158] fix: do not mix up the line number and the text when
 lines are compared

---
 ciscoconfparse/ccp_abc.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..5227eca 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -147,12 +147,8 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __eq__(self, val):
         try:
             ##   try / except is much faster than isinstance();
-            ##   I added hash_arg() inline below for speed... whenever I change
-            ##   self.__hash__() I *must* change this
-            # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
-            )
+            ##   whenever I change self.__hash__() I *must* change this
+            return (self.linenum, self.text) == (val.linenum, val.text)
         except Exception:
             return False
 
-- 
2.43.0


From ab2e83dd60e8bf9862eeea77dc19c65811c973f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 007/158] fix: do not read an ASA banner line as the start of a
 delimited banner

---
 ciscoconfparse/ciscoconfparse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 0d924d1..227eec7 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5822,8 +5822,11 @@ class ConfigList(MutableSequence):
         # Build the banner_re regexp... at this point ios
         #    and nxos share the same method...
         if syntax not in ALL_BRACE_SYNTAX:
-            banner_re = self._build_banner_re_ios()
-            self._banner_mark_regex(banner_re)
+            # Each ASA banner command is one complete line of banner text; it
+            #    does not use a banner delimiter.
+            if syntax != "asa":
+                banner_re = self._build_banner_re_ios()
+                self._banner_mark_regex(banner_re)
 
             # We need to use a different method for macros than banners because
             #   macros don't specify a delimiter on their parent line, but
-- 
2.43.0


From 8e13da99b64649e2dea8372cced463340dfb378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 008/158] fix: do not take a comment which holds a second
 delimiter for a brace-syntax statement

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 227eec7..c650164 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -310,7 +310,7 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
     """
     brace_re = re.compile(junos_re_str, re.VERBOSE)
     comment_re = re.compile(
-        r"^\s*(?P<delimiter>[{0}]+)(?P<comment>[^{0}]*)$".format(
+        r"^\s*(?P<delimiter>[{0}]+)(?P<comment>.*)$".format(
             re.escape(comment_delimiter)
         )
     )
-- 
2.43.0


From f1ad3aba42b7f40490a5582dda2e31437999e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 009/158] fix: match the whole line with exactmatch when the
 regex has alternatives

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c650164..835457c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1409,7 +1409,7 @@ class CiscoConfParse(object):
 
         elif exactmatch is True:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^{}$".format(dnaspec))
+            linespec_re = re.compile("^(?:{})$".format(dnaspec))
 
         return list(
             filter(lambda obj: linespec_re.search(obj.dna), self.ConfigObjs),
@@ -1496,7 +1496,7 @@ class CiscoConfParse(object):
         else:
             # Return the lines in self.ioscfg, which match (exactly) linespec
             return list(
-                filter(re.compile("^%s$" % linespec).search, self.ioscfg),
+                filter(re.compile("^(?:%s)$" % linespec).search, self.ioscfg),
             )
 
     # This method is on CiscoConfParse()
@@ -1544,7 +1544,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1624,7 +1624,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1737,7 +1737,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             objs = self._find_line_OBJ(linespec)
         else:
-            objs = self._find_line_OBJ("^%s$" % linespec)
+            objs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         for obj in objs:
             tmp.add(obj)
@@ -3937,7 +3937,7 @@ class CiscoConfParse(object):
             linespec_re = re.compile(linespec)
         elif exactmatch:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^%s$" % linespec)
+            linespec_re = re.compile("^(?:%s)$" % linespec)
 
         return list(
             filter(lambda obj: linespec_re.search(obj.text), self.ConfigObjs),
-- 
2.43.0


From 1236a0911ceb4272064a00056419bb8dbf7cdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 010/158] fix: let a family search both escape its regexes and
 ignore whitespace

---
 ciscoconfparse/ciscoconfparse.py | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 835457c..1aaa79d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1919,16 +1919,16 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             parentspec = childspec.text
 
-        if ignore_ws:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ###################################################################
             # Escape regex to avoid embedded parenthesis problems
             ###################################################################
-            parentspec = re.escape(parentspec)
-            childspec = re.escape(childspec)
+            parentspec = re.escape(parentspec).replace("\\ ", " ")
+            childspec = re.escape(childspec).replace("\\ ", " ")
+
+        if ignore_ws:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
 
         return list(
             filter(
@@ -2318,16 +2318,16 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             parentspec = childspec.text
 
-        if ignore_ws is True:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ###################################################################
             # Escape regex to avoid embedded parenthesis problems
             ###################################################################
-            parentspec = re.escape(parentspec)
-            childspec = re.escape(childspec)
+            parentspec = re.escape(parentspec).replace("\\ ", " ")
+            childspec = re.escape(childspec).replace("\\ ", " ")
+
+        if ignore_ws is True:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
 
         return [
             obj
@@ -2696,16 +2696,16 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             parentspec = childspec.text
 
-        if ignore_ws:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ######################################################################
             # Escape regex to avoid embedded parenthesis problems
             ######################################################################
-            parentspec = re.escape(parentspec)
-            childspec = re.escape(childspec)
+            parentspec = re.escape(parentspec).replace("\\ ", " ")
+            childspec = re.escape(childspec).replace("\\ ", " ")
+
+        if ignore_ws:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
 
         retval = set()
         parents = self.find_objects(parentspec)
-- 
2.43.0


From 01a1d3e076aabd15c285190dc9a54d3122503941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 011/158] fix: accept a line object as the child of a family
 search

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1aaa79d..842f61d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1917,7 +1917,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if escape_chars is True:
             ###################################################################
@@ -2316,7 +2316,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if escape_chars is True:
             ###################################################################
@@ -2694,7 +2694,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if escape_chars is True:
             ######################################################################
-- 
2.43.0


From 7396919f39c8c5a5e1051865a161158940328f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 012/158] fix: do not renumber the groups of the child regex in
 find_child_objects()

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 842f61d..a572ab3 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2715,7 +2715,7 @@ class CiscoConfParse(object):
                 # If recurse is False, only search direct children
                 ##############################################################
                 for child in parent.children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
         else:
             for parent in parents:
@@ -2724,7 +2724,7 @@ class CiscoConfParse(object):
                 #    of the children
                 ##############################################################
                 for child in parent.all_children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
 
         return sorted(retval)
-- 
2.43.0


From 2d2860a8efbc94bbefa180706bb4200fba1c0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 013/158] fix: find the branches of a one-element branchspec

---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a572ab3..a8bc5d8 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1235,8 +1235,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 8df1fb11295c4695fcbf55b18382b23ef46ad0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 014/158] fix: apply regex_flags to the whole branchspec

---
 ciscoconfparse/ciscoconfparse.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a8bc5d8..932ff55 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1164,10 +1164,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
@@ -1255,7 +1252,7 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(branchspec[idx], element.text, regex_flags)
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From 8924affd3ba555a5ccc8fa3e3ee4b4a6a931597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 015/158] fix: look at every child for a groupdict match when
 recurse is False

---
 ciscoconfparse/ccp_abc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 5227eca..0df4c94 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1385,12 +1385,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
-- 
2.43.0


From ffad2091ad6a560d5936083de12455a5d471649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 016/158] fix: insert a line only next to the lines it was
 asked for

---
 ciscoconfparse/ccp_abc.py        |  24 ++++---
 ciscoconfparse/ciscoconfparse.py | 104 +++++++++++++------------------
 2 files changed, 56 insertions(+), 72 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 0df4c94..fdf33d2 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -802,10 +802,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             raise ValueError(error)
@@ -821,7 +821,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -836,11 +836,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
@@ -918,13 +918,11 @@ class BaseCfgLine(metaclass=ABCMeta):
             insertstr = (" " * (self.indent + indent)) + insertstr.lstrip()
         ## BaseCfgLine.append_to_family(), insert a single line after this
         ##  object's children
-        try:
-            last_child = self.all_children[-1]
-            retval = self.confobj.insert_after(last_child, insertstr, atomic=False)
-        except IndexError:
-            # The object has no children
-            retval = self.confobj.insert_after(self, insertstr, atomic=False)
-        return retval
+        known_lines = set(id(obj) for obj in self.confobj)
+        family = [obj for obj in self.all_children if id(obj) in known_lines]
+        # If the object has no children, insert after the object itself
+        last_line = family[-1] if family else self
+        return self.confobj.insert_after(last_line, insertstr, atomic=False)
 
     # On BaseCfgLine()
     @junos_unsupported
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 932ff55..22f8e2a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2878,11 +2878,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -2996,11 +2996,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3043,11 +3043,13 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+        if atomic is True:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
@@ -5249,6 +5251,38 @@ class ConfigList(MutableSequence):
 
     ##############################################################################
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _build_line_obj(self, text):
+        """Build a configuration line object for `text`, which belongs to this ConfigList()."""
+        if self.factory is True:
+            obj = config_line_factory(
+                all_lines=self._list,
+                line=text,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+        else:
+            obj = CFGLINE[self.syntax](
+                all_lines=self._list,
+                line=text,
+                comment_delimiter=self.comment_delimiter,
+            )
+        obj.confobj = self
+        return obj
+
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _find_insert_idx(self, exist_val):
+        """Return the index of each line that `exist_val` stands for: the line itself if `exist_val` is a configuration line object, or all lines which match it if `exist_val` is a regular expression."""
+        if isinstance(exist_val, BaseCfgLine):
+            retval = [idx for idx, obj in enumerate(self._list) if obj is exist_val]
+            if retval:
+                return retval
+            # exist_val was parsed before the last commit
+            return [idx for idx, obj in enumerate(self._list) if obj.text == exist_val.text]
+        return [idx for idx, obj in enumerate(self._list) if re.search(exist_val, obj.text)]
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def insert_before(self, exist_val=None, new_val=None, atomic=False):
@@ -5304,7 +5338,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(error)
@@ -5321,35 +5355,11 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
-        ]
-        for idx in sorted(all_idx, reverse=True):
+        for idx in sorted(self._find_insert_idx(exist_val), reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self._build_line_obj(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5426,7 +5436,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(err_txt)
@@ -5443,34 +5453,10 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
-        ]
-        for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+        for idx in sorted(self._find_insert_idx(exist_val), reverse=True):
+            self._list.insert(idx + 1, self._build_line_obj(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
-- 
2.43.0


From 2d3ea22d102aa496a68a3e7409ee43b30f82fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 017/158] fix: delete only the lines which delete() was called
 for

---
 ciscoconfparse/ccp_abc.py | 62 ++++++++++++---------------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index fdf33d2..22b5286 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -666,54 +666,30 @@ class BaseCfgLine(metaclass=ABCMeta):
         if self.confobj.debug >= 1:
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
-        # Build a set of all IOSCfgLine() object instances to be deleted...
-        delete_these = set(
-            {
-                self,
-            }
-        )
+        if not any(obj is self for obj in self.confobj._list):
+            if self.linenum == -1:
+                # This object is deleted already
+                return True
+            ## This object was parsed before the last commit...
+            ## Consistency check to refuse deletion of the wrong object...
+            ##    only delete if the line numbers are consistent
+            current_obj = self.confobj._list[self.linenum]
+            assert current_obj.text == self.text
+            return current_obj.delete(recurse=recurse)
 
+        # Find all line object instances to be deleted by their identity
+        delete_these = [self]
         if recurse is True:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=True)".format(
-                        self.linenum
-                    )
-                )
-
             # NOTE - 1.5.30 changed this from iterating over self.children
             #        to self.all_children
-            for child in self.all_children:
-                delete_these.add(child)
-
-            # reverse is important here so we can delete a range of line numbers
-            # without clobbering the line numbers that haven't been deleted
-            # yet...
-            for obj in sorted(delete_these, reverse=True):
-                linenum = obj.linenum
-                if self.confobj.debug >= 1:
-                    logger.debug(
-                        "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
-                    )
-                del self.confobj._list[linenum]
-
-        else:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=False)".format(
-                        self.linenum
-                    )
-                )
-            ## Consistency check to refuse deletion of the wrong object...
-            ##    only delete if the line numbers are consistent
-            text = self.text
-            linenum = self.linenum
-            assert self.confobj._list[linenum].text == text
-
-            if self.confobj.debug >= 1:
-                logger.debug("    Deleting <IOSCfgLine(line # {})>.".format(linenum))
-            del self.confobj._list[linenum]
+            delete_these.extend(self.all_children)
+        delete_ids = set(id(obj) for obj in delete_these)
 
+        for obj in delete_these:
+            obj.linenum = -1
+        self.confobj._list = [
+            obj for obj in self.confobj._list if id(obj) not in delete_ids
+        ]
         self.confobj.reassign_linenums()
         return True
 
-- 
2.43.0


From 2778828b2b60975106b343dae23e935ea27e5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 018/158] fix: return the value of the methods which warn about
 junos configurations

---
 ciscoconfparse/ccp_abc.py  | 7 +++----
 ciscoconfparse/ccp_util.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 22b5286..3416398 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -742,10 +742,9 @@ class BaseCfgLine(metaclass=ABCMeta):
            !
            >>>
         """
-        # if / else in a list comprehension... ref ---> https://stackoverflow.com/a/9442777/667301
-        retval = [
-            (obj.delete() if obj.re_search(linespec) else obj) for obj in self.children
-        ]
+        retval = [obj for obj in self.children if obj.re_search(linespec)]
+        for obj in retval:
+            obj.delete()
         return retval
 
     # On BaseCfgLine()
diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..5482ce3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -464,7 +464,7 @@ def junos_unsupported(func):
                 syntax = args[0].confobj.syntax
         if syntax == "junos":
             logger.warning(warn, UnsupportedFeatureWarning)
-        func(*args, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From ae13e529908d68bfc94820a243b52d8659952b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 019/158] fix: append and prepend the given line in every
 syntax

---
 ciscoconfparse/ciscoconfparse.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 22f8e2a..42753cb 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3093,8 +3093,8 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
-        elif isinstance(linespec, IOSCfgLine):
+            self.ConfigObjs.append(self.ConfigObjs._build_line_obj(str(linespec)))
+        elif isinstance(linespec, BaseCfgLine):
             self.ConfigObjs.append(linespec)
         else:
             error = f"Cannot append {type(linespec)}"
@@ -5475,23 +5475,7 @@ class ConfigList(MutableSequence):
 
         # Coerce a string into the appropriate object
         if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
+            obj = self._build_line_obj(val)
         else:
             err_txt = 'insert() cannot insert "{}"'.format(val)
             logger.error(err_txt)
-- 
2.43.0


From 8dab096aec6edde0df80fe3da98d19112e07c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 020/158] fix: commit replacements when atomic is True, and
 replace in all descendants

---
 ciscoconfparse/ciscoconfparse.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 42753cb..1249495 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3214,8 +3214,8 @@ class CiscoConfParse(object):
                 continue
             retval.append(obj.re_sub(linespec, replacestr))
 
-        if self.factory and atomic:
-            self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
+        if atomic:
+            self.atomic()
 
         return retval
 
@@ -3302,8 +3302,8 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
-            self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
+        if atomic:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
@@ -3336,8 +3336,8 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
-            self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
+        if atomic:
+            self.atomic()
 
         return retval
 
@@ -3954,14 +3954,7 @@ class CiscoConfParse(object):
         """SEMI-PRIVATE: Takes a single object and returns a list of
         decendants in all 'children' / 'grandchildren' / etc... after it.
         It should NOT return the children of siblings"""
-        # sort the list, and get unique objects
-        retval = set(lineobject.children)
-        for candidate in lineobject.children:
-            if candidate.has_children:
-                for child in candidate.children:
-                    retval.add(child)
-        retval = sorted(retval)
-        return retval
+        return sorted(lineobject.all_children)
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 14ee365c4d3e596d4d56ea9b10095bedefe623ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 021/158] fix: keep the indent of a line in step with its text
 after re_sub()

---
 ciscoconfparse/ccp_abc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 3416398..07d61f0 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1059,6 +1059,8 @@ class BaseCfgLine(metaclass=ABCMeta):
             return
 
         self._text = retval
+        self.indent = len(retval) - len(retval.lstrip())
+        self.line_id = self.calculate_line_id()
         self.set_comment_bool()
         return retval
 
-- 
2.43.0


From c10d3832d5660871f0bafc6fcb97cdf9971e4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 022/158] fix: slice, copy, add and sort a ConfigList

---
 ciscoconfparse/ciscoconfparse.py | 36 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1249495..3d1f460 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5000,7 +5000,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __le__(self, other):
-        return self._list < self.__cast(other)
+        return self._list <= self.__cast(other)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5031,7 +5031,7 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __getitem__(self, ii):
         if isinstance(ii, slice):
-            return self.__class__(self._list[ii])
+            return self._copy_with(self._list[ii])
         else:
             return self._list[ii]
 
@@ -5045,25 +5045,25 @@ class ConfigList(MutableSequence):
     def __delitem__(self, ii):
         del self._list[ii]
         #self._bootstrap_from_text()
-        self._list = self.bootstrap_obj_init_ng(self.ioscfg, debug=self.debug)
+        self._list = self.bootstrap_obj_init_ng([obj.text for obj in self._list], debug=self.debug)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __add__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(self._list + other._list)
+            return self._copy_with(self._list + other._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(self._list + other)
-        return self.__class__(self._list + list(other))
+            return self._copy_with(self._list + other)
+        return self._copy_with(self._list + list(other))
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __radd__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(other._list + self._list)
+            return self._copy_with(other._list + self._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(other + self._list)
-        return self.__class__(list(other) + self._list)
+            return self._copy_with(other + self._list)
+        return self._copy_with(list(other) + self._list)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5079,7 +5079,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __mul__(self, val):
-        return self.__class__(self._list * val)
+        return self._copy_with(self._list * val)
 
     __rmul__ = __mul__
 
@@ -5097,6 +5097,14 @@ class ConfigList(MutableSequence):
         inst.__dict__["_list"] = self.__dict__["_list"][:]
         return inst
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _copy_with(self, objs):
+        """Return a copy of this ConfigList() which holds the configuration line objects in `objs`."""
+        inst = self.__copy__()
+        inst.__dict__["_list"] = list(objs)
+        return inst
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __str__(self):
@@ -5166,7 +5174,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def copy(self):
-        return self.__class__(self)
+        return self._copy_with(self._list)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5185,7 +5193,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def sort(self, _unknown_arg, *args, **kwds):
+    def sort(self, *args, **kwds):
         self._list.sort(*args, **kwds)
 
     # This method is on ConfigList()
@@ -5357,7 +5365,7 @@ class ConfigList(MutableSequence):
         if atomic:
             # Reparse the whole config as a text list
             #self._bootstrap_from_text()
-            self._list = self.bootstrap_obj_init_ng(self.ioscfg)
+            self._list = self.bootstrap_obj_init_ng([obj.text for obj in self._list])
 
         else:
             ## Just renumber lines...
@@ -5454,7 +5462,7 @@ class ConfigList(MutableSequence):
         if atomic is True:
             # Reparse the whole config as a text list
             #self._bootstrap_from_text()
-            self._list = self.bootstrap_obj_init_ng(self.ioscfg)
+            self._list = self.bootstrap_obj_init_ng([obj.text for obj in self._list])
         else:
             ## Just renumber lines...
             self.reassign_linenums()
-- 
2.43.0


From da532fbde810f2fda6172a58f897532c0412efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 023/158] fix: do not insert a line next to namesakes of a
 deleted line

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 3d1f460..7787245 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5278,7 +5278,8 @@ class ConfigList(MutableSequence):
         """Return the index of each line that `exist_val` stands for: the line itself if `exist_val` is a configuration line object, or all lines which match it if `exist_val` is a regular expression."""
         if isinstance(exist_val, BaseCfgLine):
             retval = [idx for idx, obj in enumerate(self._list) if obj is exist_val]
-            if retval:
+            if retval or exist_val.linenum == -1:
+                # No line is returned if exist_val is deleted already
                 return retval
             # exist_val was parsed before the last commit
             return [idx for idx, obj in enumerate(self._list) if obj.text == exist_val.text]
-- 
2.43.0


From a434e194124fd872c8cb32d6193794d50e051760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 024/158] fix: do not take the end of the last line of a file
 for another line

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 7787245..bc72f37 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -897,6 +897,9 @@ class CiscoConfParse(object):
                 text = fh.read()
             rgx = re.compile(linesplit_rgx)
             config_lines = rgx.split(text)
+            # The last line terminator of a file does not start another line
+            if len(config_lines) > 1 and config_lines[-1] == "":
+                config_lines.pop()
             return config_lines
 
         except OSError:
-- 
2.43.0


From 468183c163ca8f76470858bd072feaa4a65af980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 025/158] fix: subtract zero from the highest IP address

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5482ce3..c628915 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1321,7 +1321,7 @@ class IPv4Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV4_MAXINT:
+        if total > IPV4_MAXINT:
             raise RequirementFailure("Max IPv4 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv4 integer exceeded")
@@ -2038,7 +2038,7 @@ class IPv6Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV6_MAXINT:
+        if total > IPV6_MAXINT:
             raise RequirementFailure("Max IPv6 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv6 integer exceeded")
-- 
2.43.0


From 3ff1a86d57db23b1c6e4c6b2bca0f58cd3ec4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 026/158] fix: keep an IP network_offset inside the subnet, and
 read the offset of its last address

---
 ciscoconfparse/ccp_util.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index c628915..04c5c76 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1553,11 +1553,8 @@ class IPv4Obj(object):
     # On IPv4Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
-        offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
-        return offset
+        """Returns the integer difference between host number and network number."""
+        return self.as_decimal - self.as_decimal_network
 
     # do NOT wrap with @logger.catch(...)
     # On IPv4Obj()
@@ -1580,7 +1577,7 @@ class IPv4Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_broadcast - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv4Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
@@ -2233,11 +2230,8 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
-        offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
-        return offset
+        """Returns the integer difference between host number and network number."""
+        return self.as_decimal - self.as_decimal_network
 
     # do NOT wrap with @logger.catch(...)
     # On IPv6Obj()
@@ -2260,7 +2254,7 @@ class IPv6Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_network_maxint - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv6Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
-- 
2.43.0


From bbb9a44970fe851a164db78e31afd3f4d7b0efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 027/158] fix: an IPv6 network contains its last addresses

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 04c5c76..beb2bb7 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2056,7 +2056,7 @@ class IPv6Obj(object):
             else:
                 # NOTE: We cannot use the same algorithm as IPv4Obj.__contains__() b/c IPv6Obj has no broadcast
                 comparison_01 = (self.as_decimal_network <= val.as_decimal_network)
-                comparison_02 = (self.as_decimal_network + self.numhosts - 1) >= (val.as_decimal_network + val.numhosts - 1)
+                comparison_02 = self.as_decimal_network_maxint >= val.as_decimal_network_maxint
                 return comparison_01 and comparison_02
 
         except BaseException as eee:
-- 
2.43.0


From 568cf5f9908d165a5a11a440cc5fc33991f241ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 028/158] fix: IPv6Obj teredo, sixtofour and the prefixlength
 setter

---
 ciscoconfparse/ccp_util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index beb2bb7..b94b94e 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2196,6 +2196,14 @@ class IPv6Obj(object):
         """Returns the length of the network mask as an integer."""
         return self.prefixlen
 
+    # On IPv6Obj()
+    @prefixlength.setter
+    def prefixlength(self, arg):
+        """prefixlength setter method"""
+        self.network_object = IPv6Network(
+            f"{str(self.ip_object)}/{arg}", strict=False
+        )
+
     # On IPv6Obj()
     @property
     def compressed(self):
@@ -2415,12 +2423,12 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def teredo(self):
-        return self.network_object.teredo
+        return self.ip_object.teredo
 
     # On IPv6Obj()
     @property
     def sixtofour(self):
-        return self.network_object.sixtofour
+        return self.ip_object.sixtofour
 
 
 class L4Object(object):
-- 
2.43.0


From 51a5d3624f1bd515d9d3d9e4db5799361d37118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 029/158] fix: reject text which is not an IPv6 address instead
 of parsing a part of it

---
 ciscoconfparse/ccp_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index b94b94e..19bc044 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -80,7 +80,7 @@ IPV4_MAXINT = 4294967295
 # Maximum ipv6 as an integer
 IPV6_MAXINT = 340282366920938463463374607431768211455
 IPV4_MAXSTR_LEN = 31  # String length with periods, slash, and netmask
-IPV6_MAXSTR_LEN = 39 + 4  # String length with colons, slash and masklen
+IPV6_MAXSTR_LEN = 45 + 4  # String length with colons, an embedded IPv4 address, slash and masklen
 
 IPV4_MAX_PREFIXLEN = 32
 IPV6_MAX_PREFIXLEN = 128
@@ -107,7 +107,7 @@ _IPV6_REGEX_STR = r"""(?!:::\S+?$)             # Negative Lookahead for 3 colons
 |(?P<opt9>:(?::{0}){{1,7}})                    # ipv6 with leading double colons
 |(?P<opt10>(?:{0}:){{1,7}}:)                   # ipv6 with trailing double colons
 |(?P<opt11>(?:::))                             # ipv6 bare double colons (default route)
-)([/\s](?P<masklen>\d+))*                      # match 'masklen' and end 'addr' group
+)([/\s](?P<masklen>\d+))?                      # match 'masklen' and end 'addr' group
 """.format(_IPV6_RGX_CLS)
 
 _IPV6_REGEX_STR_COMPRESSED1 = r"""(?!:::\S+?$)(?P<addr1>(?P<opt1_1>{0}(?::{0}){{7}})|(?P<opt1_2>(?:{0}:){{1}}(?::{0}){{1,6}})|(?P<opt1_3>(?:{0}:){{2}}(?::{0}){{1,5}})|(?P<opt1_4>(?:{0}:){{3}}(?::{0}){{1,4}})|(?P<opt1_5>(?:{0}:){{4}}(?::{0}){{1,3}})|(?P<opt1_6>(?:{0}:){{5}}(?::{0}){{1,2}})|(?P<opt1_7>(?:{0}:){{6}}(?::{0}){{1,1}})|(?P<opt1_8>:(?::{0}){{1,7}})|(?P<opt1_9>(?:{0}:){{1,7}}:)|(?P<opt1_10>(?:::)))""".format(_IPV6_RGX_CLS)
@@ -1864,7 +1864,9 @@ class IPv6Obj(object):
             else:
                 raise NotImplementedError(v6addr_prefixlen.strip())
 
-            v6_str_rgx = _RGX_IPV6ADDR.search(v6addr_prefixlen.strip())
+            v6_str_rgx = _RGX_IPV6ADDR.fullmatch(v6addr_prefixlen.strip())
+            if v6_str_rgx is None:
+                raise AddressValueError(f"Could not parse '{v6addr_prefixlen}' {type(v6addr_prefixlen)} into an IPv6 Address")
             # Example 'v6_groupdict'
             #     v6_groupdict = {'addr': '2b00:cd80:14:10::1', 'opt1': None, 'opt2': None, 'opt3': None, 'opt4': None, 'opt5': '2b00:cd80:14:10::1', 'opt6': None, 'opt7': None, 'opt8': None, 'opt9': None, 'opt10': None, 'masklen': '64'}
             v6_groupdict = v6_str_rgx.groupdict()
-- 
2.43.0


From 117a5d5c24a8fb2fe64f703ff892007dfe4aeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 030/158] fix: refuse host bits in strict IP objects

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 19bc044..243633a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1060,7 +1060,7 @@ class IPv4Obj(object):
             mask_prefixlen = f"{netmask}{prefixlen}"
             if re.search(r"\d+\.\d+\.\d+\.\d+", v4addr):
                 self.ip_object = IPv4Address(v4addr)
-                self.network_object = IPv4Network(f"{v4addr}/{mask_prefixlen}", strict=False)
+                self.network_object = IPv4Network(f"{v4addr}/{mask_prefixlen}", strict=strict)
                 self.prefixlen = self.network_object.prefixlen
             elif v4addr == "dhcp":
                 raise DynamicAddressException("Cannot parse address from a DHCP string.")
@@ -1887,7 +1887,7 @@ class IPv6Obj(object):
             #    netstr = ipv6 + "/" + v6_groupdict["netmask"]
             else:
                 netstr = _ipv6 + "/128"
-            self.network_object = IPv6Network(netstr, strict=False)
+            self.network_object = IPv6Network(netstr, strict=strict)
 
         elif isinstance(v6addr_prefixlen, int):
             if not (0 <= v6addr_prefixlen <= IPV6_MAXINT):
-- 
2.43.0


From 1bd74f2c44744f73d6dc59a0bc60c2f5bfe949bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 031/158] fix: compare, hash and read an empty IPv6Obj like an
 empty IPv4Obj

---
 ciscoconfparse/ccp_util.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 243633a..dcc6d3d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1914,11 +1914,8 @@ class IPv6Obj(object):
 
     # On IPv6Obj()
     def __eq__(self, val):
-        if self.empty is True:
-            if val.empty is True:
-                return True
-            else:
-                return False
+        if isinstance(val, IPv6Obj) and (self.empty is True or val.empty is True):
+            return self.empty == val.empty
         try:
             for obj in [self, val]:
                 for attr_name in ["as_decimal", "prefixlen"]:
@@ -2048,6 +2045,11 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __contains__(self, val):
         # Used for "foo in bar"... python calls bar.__contains__(foo)
+        if self.empty is True and val.empty is True:
+            return True
+        elif self.empty is True or val.empty is True:
+            return False
+
         try:
             if self.network_object.prefixlen == 0:
                 return True
@@ -2067,7 +2069,10 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __hash__(self):
         # Python3 needs __hash__()
-        return hash(str(self.ip_object)) + hash(str(self.prefixlen))
+        if self.empty is False:
+            return hash(str(self.ip_object)) + hash(str(self.prefixlen))
+        else:
+            return hash(None)
 
     # On IPv6Obj()
     def __iter__(self):
@@ -2182,7 +2187,10 @@ class IPv6Obj(object):
     @property
     def prefixlen(self):
         """Returns the length of the network mask as an integer."""
-        return int(self.network_object.prefixlen)
+        if self.empty is False:
+            return int(self.network_object.prefixlen)
+        else:
+            return None
 
     # On IPv6Obj()
     @prefixlen.setter
-- 
2.43.0


From fb6e2bfe59bd44ed4c64181065e0cbf33a095180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 032/158] fix: an IPv4 address does not equal an IPv6 address

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index dcc6d3d..d2d3c4d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1186,7 +1186,7 @@ class IPv4Obj(object):
                         return False
 
             # Compare objects numerically...
-            if self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
+            if self.version == getattr(val, "version", None) and self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
                 return True
             return False
         except AttributeError as eee:
@@ -1923,7 +1923,7 @@ class IPv6Obj(object):
                         return False
 
             # Compare objects numerically...
-            if self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
+            if self.version == getattr(val, "version", None) and self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
                 return True
             return False
         except BaseException as eee:
-- 
2.43.0


From 5788d2813038ba92d6e61bc690098f4beb245843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 033/158] fix: accept IPv6 addresses in check_valid_ipaddress()

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d2d3c4d..4d06667 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2918,7 +2918,7 @@ def check_valid_ipaddress(input_addr=None):
         IPv4Obj(input_addr)
         ipaddr_family = 4
     except BaseException:
-        raise ValueError(input_addr)
+        ipaddr_family = 0
 
     if ipaddr_family == 0:
         try:
-- 
2.43.0


From 0b5f09a403b53068761944cfbf500785307a471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 034/158] fix: L4Object port_spec neq is not eq, and accepts
 service names

---
 ciscoconfparse/ccp_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4d06667..012d337 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2479,7 +2479,7 @@ class L4Object(object):
         else:
             raise NotImplementedError(f"This syntax is unknown: '{syntax}'")
 
-        if "eq " in port_spec.strip():
+        if re.search(r"^eq\s", port_spec):
             port_tmp = re.split(r"\s+", port_spec)[-1].strip()
             eq_port = int(ports.get(port_tmp, port_tmp))
             if not (1 <= eq_port <= 65535):
@@ -2511,9 +2511,10 @@ class L4Object(object):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port + 1, 65536))
         elif "neq " in port_spec.strip():
-            port_str = re.split(r"\s+", port_spec)[-1]
+            port_tmp = re.split(r"\s+", port_spec)[-1]
+            neq_port = int(ports.get(port_tmp, port_tmp))
             tmp = set(range(1, 65536))
-            tmp.remove(int(port_str))
+            tmp.remove(neq_port)
             self.port_list = sorted(tmp)
         else:
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
-- 
2.43.0


From 3cbc8b4f22fc08f14e85304026c22fab69a5d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 035/158] fix: order interfaces when a component of one of them
 is absent

---
 ciscoconfparse/ccp_util.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 012d337..0846035 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2968,6 +2968,11 @@ def reverse_dns_lookup(input_str, timeout=3.0, server="4.2.2.2", proto="udp"):
     return retval
 
 
+def sortable_interface_list(sort_list):
+    """Return `sort_list` of an interface as a list which can be compared; an absent component (None) sorts before any present component."""
+    return [(ii is not None, ii) if ii is not None else (False, 0) for ii in sort_list]
+
+
 class CiscoIOSInterface(object):
     interface_name = None
     interface_dict = None
@@ -3508,7 +3513,7 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if sortable_interface_list(self.sort_list) > sortable_interface_list(other.sort_list):
             return True
         return False
 
@@ -3516,7 +3521,7 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if sortable_interface_list(self.sort_list) < sortable_interface_list(other.sort_list):
             return True
         return False
 
@@ -5257,7 +5262,10 @@ class CiscoRange(MutableSequence):
                 if isinstance(target_list, list):
                     if isinstance(target_list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
                         # Sort CiscoIOSInterface() or CiscoIOSXRInterface members
-                        new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
+                        if attribute == "sort_list":
+                            new_list = sorted(target_list, key=lambda x: sortable_interface_list(x.sort_list), reverse=reverse)
+                        else:
+                            new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
                     elif isinstance(target_list[0], (int, float)):
                         # Sort int or float members
                         new_list = sorted(target_list, reverse=reverse)
-- 
2.43.0


From d3448a36093886ccacacd47748bb89a16330cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 036/158] fix: hash an interface with a large number without
 computing an exponential

---
 ciscoconfparse/ccp_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 0846035..0ddbcc3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3528,9 +3528,8 @@ class CiscoIOSInterface(object):
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
     def __hash__(self):
-        """Build a unique (and sortable) identifier based solely on slot / card / port / subinterface / channel numbers for the object instance"""
-        # I am using __hash__() in __gt__() and __lt__()
-        return sum([(idx + 1)**ii for idx, ii in enumerate(self.sort_list) if isinstance(ii, int)])
+        """Return a hash of everything which __eq__() compares"""
+        return hash((self.prefix, tuple(self.sort_list)))
 
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
-- 
2.43.0


From 22bf7a80a7a8d759e8f416ba39923b137ed7cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 037/158] fix: slot_card_port_subinterface_channel of every
 interface name

---
 ciscoconfparse/ccp_util.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 0ddbcc3..2fcc3af 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3670,20 +3670,17 @@ class CiscoIOSInterface(object):
         else:
             _interface_class = f" {self.interface_class.strip()}"
 
-        if isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and isinstance(self.channel, (int, str)):
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}:{self.channel}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
-        elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.port}{_interface_class}"
+        if self.subinterface is None:
+            _subinterface = ""
         else:
-            error = "Could not construct a return value for CiscoIOSInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
-            logger.error(error)
-            raise ValueError(error)
+            _subinterface = f".{self.subinterface}"
+
+        if self.channel is None:
+            _channel = ""
+        else:
+            _channel = f":{self.channel}"
+
+        return f"{self.number}{_subinterface}{_channel}{_interface_class}"
 
     # This method is on CiscoIOSInterface()
     @property
-- 
2.43.0


From cd67060862b2c85fe47254db95bf527ac7002f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 038/158] fix: parse interface types which contain digits

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2fcc3af..bdd3f4c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3197,8 +3197,8 @@ class CiscoIOSInterface(object):
             logger.critical(error)
             raise InvalidCiscoInterface(error)
 
-        re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>[\d\:\.\/^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
+        re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*(?:\d+[a-zA-Z]+\s*(?=\d))?)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*(?:\d+[a-zA-Z]+\s*(?=\d))?)(?P<slot_card_port_subinterface_channel>[\d\:\.\/^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
         if isinstance(re_intf_short, re.Match):
 
-- 
2.43.0


From 1557c2e199d03c2c8f93bf3e17f32df7599be83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 039/158] fix: CiscoRange as_list() and as_set() of every
 result type, without changing the range

---
 ciscoconfparse/ccp_util.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index bdd3f4c..4210b75 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4869,7 +4869,7 @@ class CiscoRange(MutableSequence):
                 continue
 
         # De-duplicate the list of integers and return it...
-        return list(set([int(ii) for ii in integers]))
+        return sorted(set([int(ii) for ii in integers]))
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
@@ -5408,17 +5408,6 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def as_list(self, result_type="auto"):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
-        # WAS DEEPCOPY
-        yy_list = copy.deepcopy(self._list)
-        for ii in self._list:
-            if isinstance(ii, str) and ii == "":
-                # Reject an empty string...
-                continue
-            if getattr(ii, "sort_list", None) is not None:
-                # Require the .sort_list attribute...
-                yy_list.append(ii)
-
-        self._list = yy_list
         try:
             # Disable linter qa checks on this embedded list syntax...
             retval = sorted(set(self._list), reverse=self.reverse) # noqa
@@ -5427,10 +5416,10 @@ class CiscoRange(MutableSequence):
                     result_type = self.member_type
                     return [result_type(ii) for ii in retval]
                 else:
-                    return set()
+                    return list()
             elif result_type is None:
                 return [CiscoIOSInterface(ii) for ii in retval]
-            elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+            elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                 return [result_type(ii) for ii in retval]
             elif result_type is str:
                 return [str(ii) for ii in retval]
@@ -5457,13 +5446,13 @@ class CiscoRange(MutableSequence):
         retval = set(self._list)
         if result_type == "auto":
             if len(self._list) > 0:
-                result_type = type(self.as_list[0])
+                result_type = self.member_type
                 return set([result_type(ii) for ii in retval])
             else:
-                return list()
+                return set()
         elif result_type is None:
             return set([CiscoIOSInterface(ii) for ii in retval])
-        elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             return set([result_type(ii) for ii in retval])
         elif result_type is str:
             return set([str(ii) for ii in retval])
-- 
2.43.0


From 9402308d1efccefebc1a3ec644a716a6832da710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:21 +0000
Subject: [PATCH 040/158] fix: CiscoRange items, slices, hash and operators

---
 ciscoconfparse/ccp_util.py | 42 +++++++++-----------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4210b75..3cd4e4c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5145,7 +5145,7 @@ class CiscoRange(MutableSequence):
     def __hash__(self):
         """Return a deterministic identifier for CiscoRange() implementations"""
         if len(self._list) == 0:
-            return hash(self._list)
+            return hash(())
         else:
             return hash(str(self._list)) * hash(self.member_type)
 
@@ -5187,41 +5187,23 @@ class CiscoRange(MutableSequence):
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def __getitem__(self, ii):
-        max_list_index = len(self._list) - 1
-        if ii > max_list_index:
-            error = f"CiscoRange() attempted to access CiscoRange()._list[{ii}], but the max list index is {max_list_index}"
-            logger.critical(error)
-            raise IndexError(error)
-        else:
-            return self._list[ii]
+        return self._list[ii]
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def __delitem__(self, ii):
-        max_list_index = len(self._list) - 1
-        if ii > max_list_index:
-            error = f"CiscoRange() attempted to access CiscoRange()._list[{ii}], but the max list index is {max_list_index}"
-            logger.critical(error)
-            raise IndexError(error)
-        else:
-            del self._list[ii]
+        del self._list[ii]
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def __setitem__(self, ii, val):
-        max_list_index = len(self._list) - 1
-        if ii > max_list_index:
-            error = f"CiscoRange() attempted to access CiscoRange()._list[{ii}], but the max list index is {max_list_index}"
-            logger.critical(error)
-            raise IndexError(error)
-        else:
-            return self._list[ii]
+        self._list[ii] = val
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
-            self._list.extend(other._list)
-            self._list = sorted(set(self._list))
-            return self
+            retval = copy.copy(self)
+            retval._list = sorted(set(self._list + other._list))
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
@@ -5229,13 +5211,9 @@ class CiscoRange(MutableSequence):
 
     def __sub__(self, other):
         if isinstance(other, CiscoRange):
-            for ii in other._list:
-                try:
-                    self._list.remove(ii)
-                except ValueError:
-                    # Skip the item if it does not exist...
-                    pass
-            return self
+            retval = copy.copy(self)
+            retval._list = [ii for ii in self._list if ii not in other._list]
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
-- 
2.43.0


From 9aea6abe84a770e1067b1d3dcb5d12fac45e3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:27 +0000
Subject: [PATCH 041/158] fix: append to, remove from and sort a CiscoRange

---
 ciscoconfparse/ccp_util.py | 92 +++++++++++---------------------------
 1 file changed, 27 insertions(+), 65 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 3cd4e4c..9194c3a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5229,7 +5229,8 @@ class CiscoRange(MutableSequence):
             # WAS DEEPCOPY
             target_list = copy.deepcopy(self._list)
         if sort_this_obj:
-            self._list = target_list
+            if len(target_list) > 0:
+                self._list = self.attribute_sort(target_list, attribute=attribute, reverse=reverse)
             return self
         else:
             if len(target_list) > 0:
@@ -5279,7 +5280,13 @@ class CiscoRange(MutableSequence):
             logger.error(error)
             raise MismatchedType(error)
 
-        if val in self._list and ignore_errors is False:
+        if len(self._list) > 0 and arg_type is not self.member_type:
+            val = self.member_type(val)
+
+        if val in self._list:
+            if ignore_errors is True:
+                logger.debug(f"CiscoRange().append({val}) was skipped because {val} already exists in this CiscoRange()")
+                return self
             error = f'Requested to append {val} {type(val)}; however, CiscoRange() already contains {val}'
             logger.error(error)
             raise DuplicateMember(error)
@@ -5301,10 +5308,9 @@ class CiscoRange(MutableSequence):
             else:
                 retval = new_list
             self._list = retval
-        except DuplicateMember:
-            if ignore_errors is True:
-                logger.debug(f"CiscoRange().append({val}) was skipped because {val} already exists in this CiscoRange()")
         except Exception as eee:
+            if ignore_errors is False:
+                raise
             logger.warning(f"CiscoRange().append({val}) was skipped because of an error: {eee}")
 
         return self
@@ -5318,67 +5324,23 @@ class CiscoRange(MutableSequence):
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def remove(self, arg, ignore_errors=False, debug=False):
-        length_before = len(self._list)
-        # WAS DEEPCOPY
-        list_before = copy.deepcopy(self._list)
-
-        # Ignore absent arg if ignore_errors is True
-        if arg not in self._list and ignore_errors is True:
-            new_list = self._list
-            if len(self._list) > 0:
-                result_type = type(self._list[0])
-            else:
-                result_type = self.result_type
-
-        elif len(self._list) > 0:
-
-            # Try removing some common result types...
-            for result_type in [None, int, str, float, 0]:
-                if len(self._list) > 0 and result_type is not type(self._list[0]):
-                    # Skip this result_type...
-                    continue
-                elif result_type == 0:
-                    # Explicitly handle inability to detect type dynamically...
-                    error = f"CiscoRange().remove({arg}) arg type: {type(arg)} does not match type: {self.member_type} of this CiscoRange(): {self}"
-                    logger.error(error)
-                    raise MismatchedType(error)
-                elif result_type is None:
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [CiscoIOSInterface(ii) for ii in list_before if ii != arg]
-                elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [result_type(ii) for ii in list_before if ii != arg]
-                else:
-                    try:
-                        new_list = [result_type(ii) for ii in list_before if result_type(ii) != result_type(arg)]
-                    except TypeError:
-                        if debug is True:
-                            error = f"CiscoRange().remove() found type mismatch: {arg}"
-                            logger.debug(error)
-
-                # Break if the remove() was successful, above...
-                if len(new_list) < length_before:
-                    self._list = new_list
-                    return self
-
-        # Throw errors for inability to remove list items...
-        if len(new_list) == length_before:
-            if len(self._list) > 0 and result_type is not type(self._list[0]):
-                # Do a simple type check to see if typing is the problem...
-                error = f"CiscoRange().remove() could not remove {arg} {type(arg)} from this CiscoRange(); existing members are type {type(self._list[0])}"
-                logger.error(error)
-                raise MismatchedType(error)
-            elif len(self._list) == 0:
-                if ignore_errors is not True:
-                    error = "CiscoRange().remove() cannot remove from an empty CiscoRange()"
-                    logger.critical(error)
-                    raise InvalidMember(error)
-            else:
-                # Otherwise, flag the problem as an invalid member...
+        if len(self._list) > 0 and not isinstance(arg, self.member_type):
+            try:
+                # Accept another spelling of the member, such as "Eth1/1"
+                arg = self.member_type(arg)
+            except Exception as eee:
+                error = f"CiscoRange().remove() could not remove {arg} {type(arg)} from this CiscoRange(); existing members are type {self.member_type}"
                 if ignore_errors is not True:
-                    error = f"CiscoRange().remove() could not find {arg} {type(arg)} in this CiscoRange(); ensure that {arg} is {self.member_type}"
-                    logger.critical(error)
-                    raise InvalidMember(error)
+                    logger.error(error)
+                    raise MismatchedType(error) from eee
+
+        if arg in self._list:
+            self._list = [ii for ii in self._list if ii != arg]
+        elif ignore_errors is not True:
+            # Flag the problem as an invalid member...
+            error = f"CiscoRange().remove() could not find {arg} {type(arg)} in this CiscoRange()"
+            logger.critical(error)
+            raise InvalidMember(error)
 
         return self
 
-- 
2.43.0


From 3da2afa2d1f32031d4558905784be967485241b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 042/158] fix: expand every item of a CiscoRange of interfaces

---
 ciscoconfparse/ccp_util.py | 59 ++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 9194c3a..2eb7e23 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4903,12 +4903,16 @@ class CiscoRange(MutableSequence):
             if debug is True:
                 logger.info(f"    CiscoRange() idx: {idx} for --> _csv_part: {_csv_part} <--")
 
+            # The dash of a range follows a digit; other dashes are a part of
+            #     the name, such as 'port-channel1-3' or 'point-to-point'
+            range_parts = re.split(r"(?<=\d)\s*-\s*", _csv_part.strip())
+
             ##################################################################
             # Build base instances of begin_obj and this_obj
             ##################################################################
             if idx == 0:
                 # Set the begin_obj...
-                begin_obj = _result_type(_csv_part.split("-")[0])
+                begin_obj = _result_type(range_parts[0])
                 self.begin_obj = begin_obj
                 self.this_obj = _result_type(interface_dict=begin_obj.as_dict(), debug=debug)
                 intf_dict = begin_obj.as_dict()
@@ -4936,12 +4940,27 @@ class CiscoRange(MutableSequence):
             # WAS DEEPCOPY
             self.this_obj = copy.deepcopy(begin_obj)
 
+            ##################################################################
+            # A later item is either the number to iterate on, or the name of
+            #     another interface
+            ##################################################################
+            if idx > 0:
+                re_number = re.search(r"^(?P<number>\d+)(?:\s+[a-zA-Z\-]+)?$", range_parts[0])
+                if re_number is not None:
+                    setattr(self.this_obj, self.iterate_attribute, int(re_number.group("number")))
+                else:
+                    intf_dict = _result_type(range_parts[0], debug=debug).as_dict()
+                    for attr_name in ("prefix", "interface_class"):
+                        if not intf_dict[attr_name]:
+                            intf_dict[attr_name] = getattr(begin_obj, attr_name)
+                    self.this_obj = _result_type(interface_dict=intf_dict)
+
             ##################################################################
             # Walk all possible attributes to find which target_attribute
             #     we're iterating on...
             ##################################################################
             for potential_iter_attr in ['channel', 'subinterface', 'port', 'card', 'slot']:
-                if isinstance(getattr(begin_obj, potential_iter_attr), int):
+                if isinstance(getattr(self.this_obj, potential_iter_attr), int):
                     self.iterate_attribute = potential_iter_attr
                     break
 
@@ -4950,20 +4969,6 @@ class CiscoRange(MutableSequence):
                     logger.warning(f"CiscoRange() set `iterate_attribute` to the default of {self.default_iter_attr}")
                 self.iterate_attribute = self.default_iter_attr
 
-            if idx > 0:
-                if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
-                    self.this_obj.channel = _result_type(_csv_part.split("-")[0].strip(), debug=debug).channel
-                elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
-                    self.this_obj.subinterface = _result_type(_csv_part.split("-")[0].strip(), debug=debug).subinterface
-                elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
-                    self.this_obj.port = _result_type(_csv_part.split("-")[0].strip(), debug=debug).port
-                elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
-                    self.this_obj.card = _result_type(_csv_part.split("-")[0].strip(), debug=debug).card
-                elif self.iterate_attribute == 'slot' and isinstance(begin_obj.card, int):
-                    self.this_obj.slot = _result_type(_csv_part.split("-")[0].strip(), debug=debug).slot
-                else:
-                    raise NotImplementedError()
-
             ##################################################################
             #
             # Handle attribute incrementing below
@@ -4980,14 +4985,12 @@ class CiscoRange(MutableSequence):
             # Set the end_ordinal... keep this separate from begin_obj logic...
             if self.iterate_attribute is None:
                 raise ValueError()
-            if "-" in _csv_part:
-                if len(_csv_part.split("-")) == 2:
+            if len(range_parts) > 1:
+                if len(range_parts) == 2 and re.search(r"\d", range_parts[1]):
                     # Append a whole range of interfaces...
-                    obj = _result_type(_csv_part.split("-")[0].strip(), debug=debug)
-                    begin_ordinal = getattr(obj, self.iterate_attribute)
-                    # parse end_ordinal from 'Eth1/2-4 multipoint'
-                    #     ref: https://stackoverflow.com/a/1450900
-                    end_ordinal = int("".join(filter(str.isdigit, _csv_part.split("-")[1].strip())))
+                    begin_ordinal = getattr(self.this_obj, self.iterate_attribute)
+                    # parse end_ordinal from 'Eth1/2-4 multipoint' or from 'Eth1/2-1/4'
+                    end_ordinal = int(re.findall(r"\d+", range_parts[1])[-1])
                     if debug is True:
                         logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
                 else:
@@ -5002,7 +5005,7 @@ class CiscoRange(MutableSequence):
             if debug is True:
                 logger.debug(f"    CiscoRange(text={text}, debug=True) [begin_obj: {type(self.begin_obj)}]    end_ordinal: {end_ordinal}")
 
-            if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
+            if self.iterate_attribute == 'channel' and isinstance(self.this_obj.channel, int):
                 ##############################################################
                 # Handle incrementing channel numbers
                 ##############################################################
@@ -5026,7 +5029,7 @@ class CiscoRange(MutableSequence):
                     # WAS DEEPCOPY
                     expanded_interfaces.append(copy.deepcopy(self.this_obj))
                     continue
-            elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
+            elif self.iterate_attribute == 'subinterface' and isinstance(self.this_obj.subinterface, int):
                 ##############################################################
                 # Handle incrementing subinterface numbers
                 ##############################################################
@@ -5048,7 +5051,7 @@ class CiscoRange(MutableSequence):
                         logger.info(f"    idx: {idx} at point06, Appending {self.this_obj}{os.linesep}")
                     expanded_interfaces.append(self.this_obj)
                     continue
-            elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
+            elif self.iterate_attribute == 'port' and isinstance(self.this_obj.port, int):
                 ##############################################################
                 # Handle incrementing port numbers
                 ##############################################################
@@ -5071,7 +5074,7 @@ class CiscoRange(MutableSequence):
                     expanded_interfaces.append(self.this_obj)
                     continue
 
-            elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
+            elif self.iterate_attribute == 'card' and isinstance(self.this_obj.card, int):
                 ##############################################################
                 # Handle incrementing port numbers
                 ##############################################################
@@ -5094,7 +5097,7 @@ class CiscoRange(MutableSequence):
                     expanded_interfaces.append(self.this_obj)
                     continue
 
-            elif self.iterate_attribute == 'slot' and isinstance(begin_obj.slot, int):
+            elif self.iterate_attribute == 'slot' and isinstance(self.this_obj.slot, int):
                 ##############################################################
                 # Handle incrementing port numbers
                 ##############################################################
-- 
2.43.0


From 850e261b6337f906afac77b2e773a7f525276fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 043/158] fix: compress a CiscoRange of interfaces

---
 ciscoconfparse/ccp_util.py | 50 ++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2eb7e23..d517e71 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4938,11 +4938,15 @@ class CiscoRange(MutableSequence):
             #     attribute if-clauses, below
             ##################################################################
             # WAS DEEPCOPY
-            self.this_obj = copy.deepcopy(begin_obj)
+            if idx == 0:
+                self.this_obj = copy.deepcopy(begin_obj)
+            else:
+                self.this_obj = copy.deepcopy(self.this_obj)
 
             ##################################################################
-            # A later item is either the number to iterate on, or the name of
-            #     another interface
+            # A later item is either the number to iterate on (a number
+            #     continues the item before it), or the name of another
+            #     interface
             ##################################################################
             if idx > 0:
                 re_number = re.search(r"^(?P<number>\d+)(?:\s+[a-zA-Z\-]+)?$", range_parts[0])
@@ -5427,27 +5431,27 @@ class CiscoRange(MutableSequence):
             retval = list()
 
         # Handle CiscoIOSInterface() instances...
-        if isinstance(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
-            # Build a magic attribute dict so we can intelligently prepend slot/card/port/etc...
-            magic_string = "3141592653591892234109876543212345678"
-            this_obj = self.member_type(self.text.split(",")[0])
-            magic_dict = this_obj.as_dict()
-            for attr_name in ("channel", "subinterface", "port", "card", "slot",):
-                if magic_dict[attr_name] is not None:
-                    if attr_name == self.iterate_attribute:
-                        magic_dict[attr_name] = int(magic_string)
+        if self.member_type in (CiscoIOSInterface, CiscoIOSXRInterface):
+            # Compress the members which only differ in their last number
+            groups = {}
+            for component in self.as_list():
+                for attr_name in ("channel", "subinterface", "port"):
+                    number = getattr(component, attr_name)
+                    if number is not None:
                         break
-            if debug is True:
-                logger.info(f"CiscoRange() calling {self.member_type}(interface_dict={magic_dict}).as_compressed_str()")
-            obj = self.member_type(interface_dict=magic_dict, debug=debug)
-            if debug is True:
-                logger.success(f"    CiscoRange() call to {self.member_type}().as_compressed_str() with `interface_dict` parameter succeeded")
-            prefix_str = str(obj).replace(magic_string, "")
-
-            # Build a list of the relevant string iteration pieces...
-            input_str = []
-            for _, component in enumerate(self.as_list()):
-                input_str.append(getattr(self.member_type(component), self.iterate_attribute))
+                interface_class = component.interface_class
+                intf_dict = component.as_dict()
+                intf_dict["interface_class"] = None
+                name = str(self.member_type(interface_dict=intf_dict))
+                name = name[:len(name) - len(str(number))]
+                groups.setdefault((name, interface_class), []).append(number)
+            retval = []
+            for (name, interface_class), numbers in groups.items():
+                numbers = CiscoRange(",".join([str(ii) for ii in numbers]), result_type=int).as_compressed_str()
+                if interface_class is not None:
+                    numbers = f"{numbers} {interface_class}"
+                retval.append(name + numbers)
+            return ",".join(retval)
         # Handle str() instances...
         elif self.member_type is str:
             prefix_str = ""
-- 
2.43.0


From 300cca6b8f8868e47c70f3259099191271b6543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 044/158] fix: refuse an L4Object range above port 65535

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d517e71..5eb0a7c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2495,7 +2495,7 @@ class L4Object(object):
             port_tmp = re.split(r"\s+", port_spec)[1:]
             low_port = int(ports.get(port_tmp[0], port_tmp[0]))
             high_port = int(ports.get(port_tmp[1], port_tmp[1]))
-            if low_port > high_port:
+            if not (low_port <= high_port <= 65535):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port, high_port + 1))
         elif "lt " in port_spec.strip():
-- 
2.43.0


From eacb75c85f5a5b664e71c713fe77a58ce359d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:06 +0000
Subject: [PATCH 045/158] fix: show the ports of an L4Object

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5eb0a7c..15dd9bb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2527,7 +2527,7 @@ class L4Object(object):
     def __repr__(self):
         crobj = CiscoRange()
         crobj._list = self.port_list
-        return f"<L4Object {self.protocol} ports: {crobj.compressed_str}>"
+        return f"<L4Object {self.protocol} ports: {crobj.as_compressed_str()}>"
 
 
 class DNSResponse(object):
-- 
2.43.0


From e15ae21ebad79108995334bb5a0a5164008863a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 046/158] fix: ftp is TCP port 21 and ftp-data 20

---
 ciscoconfparse/protocol_values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/protocol_values.py b/ciscoconfparse/protocol_values.py
index 730134c..b5fb662 100644
--- a/ciscoconfparse/protocol_values.py
+++ b/ciscoconfparse/protocol_values.py
@@ -64,8 +64,8 @@ ASA_TCP_PORTS = {
     "echo": 7,
     "exec": 512,
     "finger": 79,
-    "ftp": 20,
-    "ftp-data": 21,
+    "ftp": 21,
+    "ftp-data": 20,
     "gopher": 70,
     "h323": 1720,
     "hostname": 101,
-- 
2.43.0


From cf9216a70f31575881270a03f309f77f6c81e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:28 +0000
Subject: [PATCH 047/158] fix: diff against an empty configuration when Diff()
 is given None

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bc72f37..84d9e55 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4021,7 +4021,7 @@ class Diff(object):
         # Handle old_config
         ######################################################################
         if old_config is None:
-            old_config = []
+            old_config = ""
         elif isinstance(old_config, str) and len(old_config.splitlines()) == 1 and os.path.isfile(old_config):
             # load the old config from a file as a string...
             old_config = open(old_config).read()
@@ -4038,7 +4038,7 @@ class Diff(object):
         # Handle new_config
         ######################################################################
         if new_config is None:
-            new_config = []
+            new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
             # load the new config from a file as a list...
             new_config = open(new_config).read().splitlines()
-- 
2.43.0


From dcce1dbbbf3dcef96bb935cc633de90ed02f037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:28 +0000
Subject: [PATCH 048/158] fix: load Diff()'s new_config from a file path

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 84d9e55..c463933 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4040,8 +4040,8 @@ class Diff(object):
         if new_config is None:
             new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
-            # load the new config from a file as a list...
-            new_config = open(new_config).read().splitlines()
+            # load the new config from a file as a string...
+            new_config = open(new_config).read()
         elif isinstance(new_config, str):
             pass
         elif isinstance(new_config, (list, tuple)):
-- 
2.43.0


From e66d5f517cd69ec48a1cbe73d5b927ed2e7bb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 049/158] fix: keep added lines of a HDiff() in the order of
 the after config

---
 ciscoconfparse/ciscoconfparse.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c463933..e5dda81 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4825,7 +4825,18 @@ class HDiff(object):
                                         loop_idx + 1, this_dict
                                     )
                                 )
-                            retval.insert(loop_idx + 1, line_dict)
+                            # Insert below the parent, and below everything
+                            # that was already added to the parent so the
+                            # added lines stay in the after_config order...
+                            insert_idx = loop_idx + 1
+                            while insert_idx < len(retval):
+                                added = retval[insert_idx]
+                                if added["diff_word"] != "add":
+                                    break
+                                if added["diff_id_list"][-this_id_len:] != this_dict["diff_id_list"]:
+                                    break
+                                insert_idx += 1
+                            retval.insert(insert_idx, line_dict)
                             lines[diff_id_list] = len(retval) - 1
                             break
                 else:
-- 
2.43.0


From 52479e51670f00ea546b3a420a6f86ec736d44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 050/158] fix: only add HDiff() lines below their own parent

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e5dda81..ba14016 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4811,9 +4811,9 @@ class HDiff(object):
                         [str(ii) for ii in this_dict["diff_id_list"]]
                     )
 
-                    # if this_dict (as a string csv) is a substring of line's csv,
+                    # if this_dict (as a string csv) is the end of line's csv,
                     # check whether this_dict should be line's parent...
-                    if this_id_csv in line_id_csv:
+                    if line_id_csv.endswith("," + this_id_csv):
 
                         # If the length of this_dict["diff_id_list"] is one element
                         # longer than line_dict["diff_id_list"], it's a pretty
-- 
2.43.0


From c0a8d4bf8b3d8410071f052ad58d57f82d3b4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 051/158] fix: repeated words before a command of one character

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 15dd9bb..e55c924 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -528,7 +528,7 @@ def fix_repeated_words(cmd="", word=""):
         raise RequirementFailure()
     while True:
         # look at the command and fix the repeated words in it...
-        rgx = rf"^(?P<indent>\s*){word.strip()}\s+{word.strip()}\s+(?P<remaining_cmd>\S.+)$"
+        rgx = rf"^(?P<indent>\s*){word.strip()}\s+{word.strip()}\s+(?P<remaining_cmd>\S.*)$"
         mm = re.search(rgx, cmd)
         if mm is not None:
             # We found a repeated word in the command...
-- 
2.43.0


From 79b84eee0874ca10614d22daee2d05b8fe0ad343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 052/158] fix: accept CiscoConfParse() instances in HDiff()

---
 ciscoconfparse/ciscoconfparse.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index ba14016..e50cce2 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4275,17 +4275,24 @@ class HDiff(object):
 
         # TODO - incorporate difflib.get_close_matches() to reorder the
         #     diff (in unified format)
-        if not isinstance(self.before_config, CiscoConfParse):
-            self.parse_before = CiscoConfParse(
-                self.before_config, syntax=self.syntax,
-                ignore_blank_lines=self.ignore_blank_lines,
-            )
+        # NOTE the lines of a CiscoConfParse() instance are parsed again; the
+        #     diff normalizes the text of its lines, and must not change the
+        #     instance that it was called with...
+        before_config = self.before_config
+        if isinstance(before_config, CiscoConfParse):
+            before_config = before_config.ioscfg
+        self.parse_before = CiscoConfParse(
+            before_config, syntax=self.syntax,
+            ignore_blank_lines=self.ignore_blank_lines,
+        )
 
-        if not isinstance(self.after_config, CiscoConfParse):
-            self.parse_after = CiscoConfParse(
-                self.after_config, syntax=self.syntax,
-                ignore_blank_lines=self.ignore_blank_lines,
-            )
+        after_config = self.after_config
+        if isinstance(after_config, CiscoConfParse):
+            after_config = after_config.ioscfg
+        self.parse_after = CiscoConfParse(
+            after_config, syntax=self.syntax,
+            ignore_blank_lines=self.ignore_blank_lines,
+        )
 
     @ logger.catch(reraise=True)
     def build_diff_obj_lists(self):
-- 
2.43.0


From 606fbcaae7814a6504c14b1c37d11435749f795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 053/158] fix: HDiff() of syntaxes other than ios and nxos is
 not empty

---
 ciscoconfparse/ciscoconfparse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e50cce2..8ec9577 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4259,12 +4259,8 @@ class HDiff(object):
 
         self.build_diff_obj_lists()
 
-        if syntax == "ios":
-            self.build_ios_diffs()
-
-        elif syntax == "nxos":
-            # FIXME - I think nxos is not going to work as-expected while using `build_ios_diffs()`
-            self.build_ios_diffs()
+        # FIXME - I think nxos is not going to work as-expected while using `build_ios_diffs()`
+        self.build_ios_diffs()
 
     @ logger.catch(reraise=True)
     def parse_hdiff_configs(self):
-- 
2.43.0


From bab5a1f7eddd00104fd1087691dc46f6524e1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 054/158] fix: give the parents of the lines that sync_diff()
 removes

---
 ciscoconfparse/ciscoconfparse.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8ec9577..23b53fe 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3849,6 +3849,7 @@ class CiscoConfParse(object):
 
         lrgx = re.compile(linespec)
         retval = []
+        removed = set()
 
         _syntax = syntax or self.syntax
         diff = HDiff(
@@ -3866,6 +3867,11 @@ class CiscoConfParse(object):
                 continue
 
             if remove_lines is True and action == "remove":
+                # Removing a line also removes the lines below it...
+                if any(tuple(parents[: ii + 1]) in removed for ii in range(len(parents))):
+                    continue
+                removed.add(tuple(parents) + (command,))
+
                 if _syntax not in ALL_BRACE_SYNTAX:
                     uu = re.search(uncfgspec, command)
                     remove_cmd = indent * " " + "no " + uu.group(0).strip()
@@ -3877,9 +3883,8 @@ class CiscoConfParse(object):
                     # required...
                     #
                     # Append parent remove_cmd command entries (if any...)
-                    if False:
-                        for pcmd in parents:
-                            retval.append(pcmd)
+                    for pcmd in parents:
+                        retval.append(pcmd)
 
                     retval.append(remove_cmd)
                 else:
-- 
2.43.0


From 44341583fa4c76395c229c3a4ea5d896872860ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 055/158] fix: keep the nesting of a parsed brace configuration
 in HDiff()

---
 ciscoconfparse/ciscoconfparse.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 23b53fe..912b065 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3853,7 +3853,7 @@ class CiscoConfParse(object):
 
         _syntax = syntax or self.syntax
         diff = HDiff(
-            before_config=self.ioscfg, after_config=cfgspec, syntax=_syntax, debug=debug
+            before_config=self, after_config=cfgspec, syntax=_syntax, debug=debug
         )
 
         for tmp in diff.all_output_dicts:
@@ -4279,19 +4279,24 @@ class HDiff(object):
         # NOTE the lines of a CiscoConfParse() instance are parsed again; the
         #     diff normalizes the text of its lines, and must not change the
         #     instance that it was called with...
-        before_config = self.before_config
+        before_config, before_syntax = self.before_config, self.syntax
         if isinstance(before_config, CiscoConfParse):
+            if before_config.syntax in ALL_BRACE_SYNTAX:
+                # The braces are already converted to indents
+                before_syntax = "ios"
             before_config = before_config.ioscfg
         self.parse_before = CiscoConfParse(
-            before_config, syntax=self.syntax,
+            before_config, syntax=before_syntax,
             ignore_blank_lines=self.ignore_blank_lines,
         )
 
-        after_config = self.after_config
+        after_config, after_syntax = self.after_config, self.syntax
         if isinstance(after_config, CiscoConfParse):
+            if after_config.syntax in ALL_BRACE_SYNTAX:
+                after_syntax = "ios"
             after_config = after_config.ioscfg
         self.parse_after = CiscoConfParse(
-            after_config, syntax=self.syntax,
+            after_config, syntax=after_syntax,
             ignore_blank_lines=self.ignore_blank_lines,
         )
 
-- 
2.43.0


From 88d63cc57616ef6c9f017c4729497a497aa95604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 056/158] fix: HDiff() renders the lines of a repeated section
 below its parent

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 912b065..22dee7a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4874,6 +4874,18 @@ class HDiff(object):
                 except BaseException:
                     raise ValueError(line_dict)
 
+        # A section may be entered more than once, but its parent lines are
+        # only rendered once.  Render all lines of the section below them...
+        children = {}
+        for line_dict in retval:
+            children.setdefault(tuple(line_dict["diff_id_list"][1:]), []).append(line_dict)
+        pending = children.get((), [])[::-1]
+        retval = []
+        while pending:
+            line_dict = pending.pop()
+            retval.append(line_dict)
+            pending.extend(children.get(tuple(line_dict["diff_id_list"]), [])[::-1])
+
         # FIXME - undo this after I work out all bugs
         for line_dict in retval:
             del line_dict["diff_id_list"]
-- 
2.43.0


From 3b57d53a8e2d2b328ae5a5c4c4dedaa2dcf9c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 057/158] fix: reset() of interfaces and lines inserts the
 default command

---
 ciscoconfparse/models_asa.py   | 4 +++-
 ciscoconfparse/models_cisco.py | 8 ++++++--
 ciscoconfparse/models_iosxr.py | 4 +++-
 ciscoconfparse/models_junos.py | 4 +++-
 ciscoconfparse/models_nxos.py  | 8 ++++++--
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ec3ebc9..4d0f4b9 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -176,7 +176,9 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     @logger.catch(reraise=True)
     def build_reset_string(self):
diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..59c7e60 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -929,7 +929,9 @@ class BaseIOSIntfLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     # This method is on BaseIOSIntfLine()
     @logger.catch(reraise=True)
@@ -2815,7 +2817,9 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     @logger.catch(reraise=True)
     def build_reset_string(self):
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 96124a5..1ee6629 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -409,7 +409,9 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     # This method is on BaseIOSXRIntfLine()
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 53acb37..7d826b3 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -415,7 +415,9 @@ class BaseJunosIntfLine(JunosCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     # This method is on BaseJunosIntfLine()
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f67686..c46842d 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -343,7 +343,9 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     def build_reset_string(self):
         # IOS interfaces are defaulted like this...
@@ -1982,7 +1984,9 @@ class NXOSAccessLine(BaseCfgLine):
 
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.confobj.insert_before(
+            exist_val=self, new_val=self.build_reset_string(), atomic=atomic
+        )
 
     def build_reset_string(self):
         # IOS interfaces are defaulted like this...
-- 
2.43.0


From 4d8aec15fe15623ee8d9300fdec3f1d889d21c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 058/158] fix: IOS ip_network_object uses the netmask of the
 interface

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 59c7e60..1c62950 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1495,7 +1495,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ip_network_object(self):
         # Simplified on 2014-12-02
         try:
-            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_mask}", strict=False)
+            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_netmask}", strict=False)
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except BaseException:
-- 
2.43.0


From d8bd6932a4d605794f2f70995d7013e8edad1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 059/158] fix: IOS ipv4_addr_object skips secondary addresses

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1c62950..cff6db8 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1382,7 +1382,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         r"""Return a ccp_util.IPv4Obj object representing the address on this interface; if there is no address, return IPv4Obj()"""
 
         retval = self.re_match_iter_typed(
-            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)",
+            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)\s*$",
             groupdict={"v4addr": str, "v4netmask": str},
             default="",
         )
-- 
2.43.0


From f08aca51aa6f666b5adc1fcc336e41973b2aac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 060/158] fix: IOS ipv6_addr returns an address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index cff6db8..9a49c21 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1766,7 +1766,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ipv6_addr(self):
         r"""Return a string with the interface's IPv6 address, or '' if there is none"""
         retval = self.re_match_iter_typed(
-            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/]+)",
+            r"^\s+ipv6\s+address\s+(?P<v6addr>\S+?)\/\d+",
             result_type=str,
             default="",
         )
-- 
2.43.0


From 943af44eb58d32dbabf8b05409ef2a9ebfe702d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 061/158] fix: IOS has_dtp is True unless DTP is disabled

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 9a49c21..d2de6bc 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2180,7 +2180,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch:
                 return False
         return True
 
-- 
2.43.0


From 0dbd5d1751dd71c73ad178115ba1133887e32529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 062/158] fix: IOS manual_switch_trunk_encap reads the
 encapsulation keyword

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d2de6bc..517060b 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2130,7 +2130,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def manual_switch_trunk_encap(self):
         for _obj in self.children:
             _parts = _obj.text.strip().split()
-            if len(_parts) == 4 and _parts[0:3] == ["switchport", "trunk", "encap"]:
+            if len(_parts) == 4 and _parts[0:2] == ["switchport", "trunk"] and _parts[2].startswith("encap"):
                 return _parts[3]
         return ""
 
-- 
2.43.0


From b36a4adc4beb67ce127cd13683f24eb4bdd41620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 063/158] fix: IOS port-security needs the switchport
 port-security command

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 517060b..9b62cea 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2153,7 +2153,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ##    unless 'switch port-security' (with no other options)
         ##    is in the configuration
         for _obj in self.children:
-            if _obj.text.strip().split()[0:2] == ["switchport", "port-security"]:
+            if _obj.text.strip().split() == ["switchport", "port-security"]:
                 return True
         return False
 
-- 
2.43.0


From 8d467cc82cd811dc39d4ee1099d8b01c53211315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 064/158] fix: IOS has_hsrp_preempt reads the preempt command

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 9b62cea..e70baf3 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2523,7 +2523,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
-- 
2.43.0


From c399310ef4ebf607ca26e7dcfc9f87f24bd6e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 065/158] fix: IOS hsrp_track does not need a decrement

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index e70baf3..c2df7bb 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2495,7 +2495,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*track\s(\S+.+?)\s+\d+\s*",
+            r"^\s*standby\s+(\d+\s+)*track\s+(\S.*?)(?:\s+decrement)?(?:\s+\d+)?\s*$",
             group=2,
             result_type=str,
             default="",
-- 
2.43.0


From 89859f0a87f93a211570bbc81b574a1bd2916ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 066/158] fix: IOS hsrp_priority reads a priority without a
 group number

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c2df7bb..88fdace 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2445,7 +2445,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             return 0  # Return this if there is no hsrp on the interface
         retval = self.re_match_iter_typed(
             r"^\s*standby\s+(?P<group>\d+\s+)*priority\s+(?P<priority>\d+)",
-            groupdict={"group": int, "priority": int},
+            groupdict={"priority": int},
             default=100,
         )
         return retval["priority"]
-- 
2.43.0


From 57e58984792eba9078189d19f401924bb54b9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 067/158] fix: HSRP tracking interfaces read the decrement
 keyword

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 88fdace..3920b67 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -319,7 +319,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                 interface = None
                 decrement = 10
                 _gg = obj.re_match_iter_typed(
-                    r"standby\s(\d+)\s+track\s+(?P<intf>\S.+?)(?P<decr>\s+\d+)*$",
+                    r"standby\s+(\d+)\s+track\s+(?P<intf>\S.*?)(?:\s+decrement)?(?P<decr>\s+\d+)?\s*$",
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
-- 
2.43.0


From dcd8a3bf0d8ad0ae05dd8a0adea10ce4d97810aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 068/158] fix: HSRP preempt_delay reads the configured delay

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 3920b67..136ca26 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -354,7 +354,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:4] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
+            if obj_parts[0:5] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
                 return int(obj_parts[5])
         # The default hello timer is 3 seconds...
         return 0
-- 
2.43.0


From 395b2a5b34715de0a045f7d8c74779aeda85d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 069/158] fix: HSRP group ipv4 is its primary address

---
 ciscoconfparse/models_cisco.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 136ca26..6b69c8f 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -247,11 +247,10 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:3] == ["standby", str(self._group), "ip"]:
-                return obj_parts[-1]
-        error = f"{self} does not have an HSRP ip configured"
-        logger.error(error)
-        raise ValueError(error)
+            if obj_parts[0:3] == ["standby", str(self._group), "ip"] and len(obj_parts) == 4:
+                return obj_parts[3]
+        # Default to an empty string if there is no IPv4 HSRP addr config'd
+        return ""
 
     # This method is on HSRPInterfaceGroup()
     @property
-- 
2.43.0


From c7080393b8b860b37de655ef18631cd16ea86bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 070/158] fix: HSRP timers with a hold time in milliseconds

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6b69c8f..4c8c85c 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -371,7 +371,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
             if obj_parts[0:4] == ["standby", str(self._group), "timers", "msec"]:
                 return float(obj_parts[4]) / 1000.0
             elif obj_parts[0:3] == ["standby", str(self._group), "timers"]:
-                return int(obj_parts[-2])
+                return int(obj_parts[3])
         # The default hello timer is 3 seconds...
         return 3
 
@@ -385,7 +385,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:2] == ["standby", str(self._group)] and obj_parts[-2] == "msec":
+            if obj_parts[0:3] == ["standby", str(self._group), "timers"] and obj_parts[-2] == "msec":
                 return float(obj_parts[-1]) / 1000.0
             elif obj_parts[0:3] == ["standby", str(self._group), "timers"]:
                 return int(obj_parts[-1])
-- 
2.43.0


From ba664709d6a1b9867581f87c8cdd14e94d99315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 071/158] fix: HSRP group authentication_md5_keychain reads its
 interface

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 4c8c85c..f3bd47d 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -455,8 +455,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
         """Return the string text of the MD5 key-chain if this HSRP group is configured with an MD5 authentication key-chain; otherwise return an empty string."""
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
-        retval = self.re_match_iter_typed(
-            r"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
+        retval = self._parent.re_match_iter_typed(
+            rf"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0


From fe3d4643962a92984f7d57fc2ab3c99d8d017983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 072/158] fix: HSRP use_bia needs the standby command

---
 ciscoconfparse/models_cisco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index f3bd47d..a01d25b 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -431,7 +431,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
     def use_bia(self):
         """Return True if the router is configured with `standby use-bia`; `standby use-bia` helps avoid instability when introducing new HSRP routers.  Return False if the router is not configured with `standby use-bia`."""
         for obj in self._parent.children:
-            if "use-bia" in obj.text:
+            obj_parts = obj.text.lower().strip().split()
+            if obj_parts[0:1] == ["standby"] and "use-bia" in obj_parts:
                 return True
         return False
 
-- 
2.43.0


From 92a74897f5cc6ddf7a05b81dee1f3aa466777083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 073/158] fix: TrackingInterface equality, hash and text

---
 ciscoconfparse/models_cisco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index a01d25b..f41b2c4 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -79,7 +79,7 @@ class TrackingInterface(BaseCfgLine):
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
     def __str__(self):
-        return f"'{self.name}' group: {self.group}, weighting: {self.weighting}, decrement: {self.decrement}"
+        return f"'{self.name}' group: {self.tracking_interface_group}, weighting: {self.weighting}, decrement: {self.decrement}"
 
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
@@ -89,7 +89,7 @@ class TrackingInterface(BaseCfgLine):
     @logger.catch(reraise=True)
     def __hash__(self):
         """Return a hash value based on the Tracking interface group, interface name and decrement / weighting."""
-        if self._name is None or self._group is None:
+        if self.name is None or self._group is None:
             error = f"Cannot hash TrackingInterface() {self}"
             logger.critical(error)
             raise ValueError(error)
@@ -101,7 +101,7 @@ class TrackingInterface(BaseCfgLine):
     def __eq__(self, other):
         """Return True or False based on whether this Tracking interface is equal to the other instance; both instances must be a TrackingInterface() instance to compare True"""
         if isinstance(other, TrackingInterface):
-            if self.name == other.name and self.group == other.group and self._interface == other._linterface and self._decrement == other._decrement and self._weighting == other._weighting:
+            if self.name == other.name and self._group == other._group and self._interface == other._interface and self._decrement == other._decrement and self._weighting == other._weighting:
                 return True
             else:
                 return False
-- 
2.43.0


From 78f7879a1c849f7ba8e5471bb744dd12f8e6225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 074/158] fix: HSRP has_hsrp_track is True for a group which
 tracks

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index f41b2c4..d0d1d72 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -423,7 +423,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
     @property
     @logger.catch(reraise=True)
     def has_hsrp_track(self):
-        return any(self.interface_tracking)
+        return bool(self.interface_tracking)
 
     # This method is on HSRPInterfaceGroup()
     @property
-- 
2.43.0


From 62e47f88800f5741988dcb6a12577eb80e8abc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 075/158] fix: HSRP groups come from standby commands only

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d0d1d72..164f33e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -918,7 +918,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         retval = set()
         for obj in self.children:
             # Get each HSRP group number...
-            if re.search(r"standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
+            if re.search(r"^standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
                 group = int(obj.text.split()[1])
                 retval.add(HSRPInterfaceGroup(group=group, parent=self))
         # Return a sorted list of HSRPInterfaceGroup() instances...
-- 
2.43.0


From 848aa93c634a726e75c259fa73f29ed31fb94d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 076/158] fix: IOS interface_object keeps the interface class

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 164f33e..cf23e56 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1000,7 +1000,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             error = f"`{self.text}` is not a valid Cisco interface"
             logger.error(error)
             raise InvalidCiscoInterface(error)
-        return CiscoIOSInterface("".join(self.text.split()[1:]))
+        return CiscoIOSInterface(" ".join(self.text.split()[1:]))
 
     # This method is on BaseIOSIntfLine()
     @property
-- 
2.43.0


From 314e18f8df94a84e26abd6d14f1d4b99aabe8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 077/158] fix: IOS ip_helper_addresses reads ip helper-address
 commands only

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index cf23e56..1302a37 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2087,7 +2087,7 @@ class BaseIOSIntfLine(IOSCfgLine):
            >>>"""
         retval = list()
         for child in self.children:
-            if "helper-address" in child.text:
+            if child.re_match(r"^\s*(ip\s+helper-address)\s"):
                 addr = child.re_match_typed(
                     r"ip\s+helper-address\s.*?(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From 59e89d19f22e0ae89fda487d0ca3be1e38de34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 078/158] fix: IOS route nexthop_str has no trailing blank

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1302a37..583862f 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3078,10 +3078,10 @@ class IOSRouteLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def nexthop_str(self):
         if self._address_family == "ip":
-            if self.next_hop_interface:
+            if self.next_hop_interface and self.next_hop_addr:
                 return self.next_hop_interface + " " + self.next_hop_addr
             else:
-                return self.next_hop_addr
+                return self.next_hop_interface or self.next_hop_addr
         elif self._address_family == "ipv6":
             retval = self.re_match_typed(
                 r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-- 
2.43.0


From 126b1bff19b77356bd729b6c22f5c39044961a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 079/158] fix: IOS ipv6 routes in a vrf have a network and a
 next hop

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 583862f..bddf7f4 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3038,7 +3038,7 @@ class IOSRouteLine(IOSCfgLine):
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
+                r"^ipv6\s+route\s+(vrf\s+\S+\s+)?(\S+?)\/\d+",
                 group=2,
                 result_type=str,
                 default="",
@@ -3084,7 +3084,7 @@ class IOSRouteLine(IOSCfgLine):
                 return self.next_hop_interface or self.next_hop_addr
         elif self._address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
+                r"^ipv6\s+route\s+(vrf\s+\S+\s+)?\S+\s+(\S+)",
                 group=2,
                 result_type=str,
                 default="",
-- 
2.43.0


From 0bf144041edbcec649a8e5335a45602165d54467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 080/158] fix: IOS route dhcp keyword is not an interface

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index bddf7f4..6596068 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2952,7 +2952,7 @@ _RE_IP_ROUTE = re.compile(
 (?P<prefix>\d+\.\d+\.\d+\.\d+)          # Prefix detection
 \s+
 (?P<netmask>\d+\.\d+\.\d+\.\d+)         # Netmask detection
-(?:\s+(?P<nh_intf>[^\d]\S+))?           # NH intf
+(?:\s+(?P<nh_intf>(?!dhcp\b)[^\d]\S+))? # NH intf
 (?:\s+(?P<nh_addr>\d+\.\d+\.\d+\.\d+))? # NH addr
 (?:\s+(?P<dhcp>dhcp))?           # DHCP keyword       (FIXME: add unit test)
 (?:\s+(?P<global>global))?       # Global keyword
-- 
2.43.0


From 727373f25332a84d759877dc7dce5fd5d35509b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 081/158] fix: IOS route options are read in any order

---
 ciscoconfparse/models_cisco.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6596068..a05d4fa 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2957,11 +2957,13 @@ _RE_IP_ROUTE = re.compile(
 (?:\s+(?P<dhcp>dhcp))?           # DHCP keyword       (FIXME: add unit test)
 (?:\s+(?P<global>global))?       # Global keyword
 (?:\s+(?P<ad>\d+))?              # Administrative distance
-(?:\s+(?P<mcast>multicast))?     # Multicast Keyword  (FIXME: add unit test)
-(?:\s+name\s+(?P<name>\S+))?     # Route name
-(?:\s+(?P<permanent>permanent))? # Permanent Keyword  (exclusive of track)
-(?:\s+track\s+(?P<track>\d+))?   # Track object (exclusive of permanent)
-(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
+(?:\s+(?:                        # Options, in any order
+  (?P<mcast>multicast)            # Multicast Keyword  (FIXME: add unit test)
+  |name\s+(?P<name>\S+)           # Route name
+  |(?P<permanent>permanent)       # Permanent Keyword  (exclusive of track)
+  |track\s+(?P<track>\d+)         # Track object (exclusive of permanent)
+  |tag\s+(?P<tag>\d+)             # Route tag
+))*
 """,
     re.VERBOSE,
 )
@@ -2976,10 +2978,12 @@ _RE_IPV6_ROUTE = re.compile(
 )
 (?:\s+nexthop-vrf\s+(?P<nexthop_vrf>\S+))?
 (?:\s+(?P<ad>\d+))?              # Administrative distance
-(?:\s+(?:(?P<ucast>unicast)|(?P<mcast>multicast)))?
-(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
-(?:\s+track\s+(?P<track>\d+))?   # Track object
-(?:\s+name\s+(?P<name>\S+))?     # Route name
+(?:\s+(?:                        # Options, in any order
+  (?P<ucast>unicast)|(?P<mcast>multicast)
+  |tag\s+(?P<tag>\d+)             # Route tag
+  |track\s+(?P<track>\d+)         # Track object
+  |name\s+(?P<name>\S+)           # Route name
+))*
 """.format(
         _IPV6_REGEX_STR_COMPRESSED1,
         _IPV6_REGEX_STR_COMPRESSED2,
-- 
2.43.0


From 40f8cf7e9412b693cf03fa47d3747939d69f88f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 082/158] fix: IOS AAA methods are a list of words

---
 ciscoconfparse/models_cisco.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index a05d4fa..30d6260 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3278,7 +3278,7 @@ class IOSAaaLoginAuthenticationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3304,7 +3304,7 @@ class IOSAaaEnableAuthenticationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3331,7 +3331,7 @@ class IOSAaaCommandsAuthorizationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3358,7 +3358,7 @@ class IOSAaaConsoleAuthorizationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
-- 
2.43.0


From 40ad1b18bc40d5d3994d78765ea1784a0ea8fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 083/158] fix: IOS AAA lists with only a server group, or
 without one

---
 ciscoconfparse/models_cisco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 30d6260..cda5bf8 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3272,7 +3272,7 @@ class IOSAaaLoginAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+login\s+(\S+)(?:\s+group\s+(\S+))?(.*)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
@@ -3298,7 +3298,7 @@ class IOSAaaEnableAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\s+authentication\s+enable\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+enable\s+(\S+)(?:\s+group\s+(\S+))?(.*)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
@@ -3324,7 +3324,7 @@ class IOSAaaCommandsAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)(?:\s+group\s+(\S+))?(.*)$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
-- 
2.43.0


From 52c9b8d560c2ba4ce9d1a74ef2e131a9b6ed3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 084/158] fix: IOS source_interface of a radius server group

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index cda5bf8..d31d8cf 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3244,7 +3244,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def source_interface(self):
         return self.re_match_iter_typed(
-            r"^\s+ip\s+tacacs\s+source-interface\s+(\S.+?\S)\s*$",
+            r"^\s+ip\s+(?:tacacs|radius)\s+source-interface\s+(\S.+?\S)\s*$",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0


From 13d50dd41784b2cd2cf6e6c9b65e4ea91aff406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 085/158] fix: IOS server_private reads a server without
 options

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d31d8cf..65748af 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3254,7 +3254,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def server_private(self, re=re):
         retval = set([])
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
-- 
2.43.0


From 3309b9ce4c2bae145e5c73ed76cd483d6602c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 086/158] fix: IOS line_range is a list and exec-timeouts are
 readable

---
 ciscoconfparse/models_cisco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 65748af..733043e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2840,7 +2840,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     @logger.catch(reraise=True)
@@ -2851,7 +2851,7 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2861,7 +2861,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From de04b0bef3d43f2130c7a84ac7777f2e49c3765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 087/158] fix: IOS has_stp_mode_rapidpvst can be reached

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 733043e..00ea4da 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2701,7 +2701,7 @@ class IOSIntfGlobal(IOSCfgLine):
     @logger.catch(reraise=True)
     def is_object_for(cls, all_lines, line, re=re):
         if re.search(
-            r"^(no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)",
+            r"^(no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)|(spanning-tree\smode\srapid-pvst)",
             line,
         ):
             return True
-- 
2.43.0


From 1b45d0487a1f3819f30081e746232b73569fd40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:45 +0000
Subject: [PATCH 088/158] fix: NXOS line models are NXOSCfgLine objects

---
 ciscoconfparse/models_nxos.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index c46842d..f01af6f 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1731,7 +1731,7 @@ class NXOSIntfLine(BaseNXOSIntfLine):
 ##
 
 
-class NXOSIntfGlobal(BaseCfgLine):
+class NXOSIntfGlobal(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "interface global"
@@ -1776,7 +1776,7 @@ class NXOSIntfGlobal(BaseCfgLine):
 ##
 ##-------------  NXOS vPC line
 ##
-class NXOSvPCLine(BaseCfgLine):
+class NXOSvPCLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "vpc"
@@ -1925,7 +1925,7 @@ class NXOSvPCLine(BaseCfgLine):
 ##
 
 
-class NXOSHostnameLine(BaseCfgLine):
+class NXOSHostnameLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "hostname"
@@ -1950,7 +1950,7 @@ class NXOSHostnameLine(BaseCfgLine):
 ##
 
 
-class NXOSAccessLine(BaseCfgLine):
+class NXOSAccessLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "access line"
@@ -2031,7 +2031,7 @@ class NXOSAccessLine(BaseCfgLine):
 ##
 
 
-class BaseNXOSRouteLine(BaseCfgLine):
+class BaseNXOSRouteLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
@@ -2276,7 +2276,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 ##-------------  NXOS TACACS+ Group
 ##
 
-class NXOSAaaGroupServerLine(BaseCfgLine):
+class NXOSAaaGroupServerLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa group server"
@@ -2325,7 +2325,7 @@ class NXOSAaaGroupServerLine(BaseCfgLine):
 ##-------------  NXOS AAA Login Authentication Lines
 ##
 
-class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
+class NXOSAaaLoginAuthenticationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
@@ -2348,7 +2348,7 @@ class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
 ##-------------  NXOS AAA Enable Authentication Lines
 ##
 
-class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
+class NXOSAaaEnableAuthenticationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
@@ -2371,7 +2371,7 @@ class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
 ##-------------  NXOS AAA Commands Authorization Lines
 ##
 
-class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
+class NXOSAaaCommandsAuthorizationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
@@ -2395,7 +2395,7 @@ class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
 ##-------------  NXOS AAA Console Authorization Lines
 ##
 
-class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
+class NXOSAaaConsoleAuthorizationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
@@ -2419,7 +2419,7 @@ class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
 ##-------------  NXOS AAA Commands Accounting Lines
 ##
 
-class NXOSAaaCommandsAccountingLine(BaseCfgLine):
+class NXOSAaaCommandsAccountingLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting commands"
@@ -2444,7 +2444,7 @@ class NXOSAaaCommandsAccountingLine(BaseCfgLine):
 ##-------------  NXOS AAA Exec Accounting Lines
 ##
 
-class NXOSAaaExecAccountingLine(BaseCfgLine):
+class NXOSAaaExecAccountingLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting exec"
-- 
2.43.0


From 758ffc81b5894560eb14476eac9544cece74ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:45 +0000
Subject: [PATCH 089/158] fix: NXOS has_ip_pim_*_mode regular expressions

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index f01af6f..ed8f5b1 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1133,7 +1133,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\sdense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\sdense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1148,7 +1148,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1163,7 +1163,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-dense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-dense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 35bb6903cf3b9141281646aad4ab3bf428d455bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 090/158] fix: NXOS ip_helper_addresses outside a vrf

---
 ciscoconfparse/models_nxos.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ed8f5b1..a956b69 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1213,14 +1213,9 @@ class BaseNXOSIntfLine(NXOSCfgLine):
            [{'addr': '172.16.20.12', 'vrf': '', 'global': False}, {'addr': '172.19.185.91', 'vrf': '', 'global': False}]
            >>>"""
         retval = list()
-
-        for child in self.children:
-            if "vrf member" in child.text:
-                vrf = child.re_match_typed(r"vrf\s+member\s+(\S+)", default="")
-                break
-
+        vrf = self.vrf
         for child in self.children:
-            if "dhcp relay address" in child.text:
+            if child.re_search(r"^\s*ip\s+dhcp\s+relay\s+address\s"):
                 addr = child.re_match_typed(
                     r"ip\s+dhcp\s+relay\s+address\s+(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From 197a7fa541fb304260057cf7500cf50591d91448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 091/158] fix: NXOS has_switch_stormcontrol sees storm-control
 commands

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a956b69..7566099 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1283,7 +1283,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         if not self.is_switchport:
             return False
         retval = self.re_match_iter_typed(
-            r"^\s*(storm-control)\s*$", result_type=bool, default=False
+            r"^\s*(storm-control)\s", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 8f422874c0a1444952401debf64d090e5cb98259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 092/158] fix: NXOS has_dtp is True unless DTP is disabled

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 7566099..2e39aab 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1297,7 +1297,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch:
                 return False
         return True
 
-- 
2.43.0


From df9dfa03a58e7312b5ac91e20235c53e70abf0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 093/158] fix: NXOS manual_switch_trunk_encap is the
 encapsulation

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 2e39aab..3eff807 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1245,7 +1245,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
     def manual_switch_trunk_encap(self):
         """Return a string with the switchport encapsulation type; if there is no manual trunk encapsulation, return ''."""
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encapsulation\s+(\S+))\s*$",
+            r"^\s*switchport\s+trunk\s+encapsulation\s+(\S+)\s*$",
             result_type=str,
             default="",
         )
-- 
2.43.0


From 56e5f2be6c28782d2f5253cb71d751dba26fec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 094/158] fix: NXOS trunk_vlans_allowed reads add, except and
 remove

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 3eff807..5af7809 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1404,12 +1404,12 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
-- 
2.43.0


From 473b3e35b2588ddbf47e33d5d22b56c8818c7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 095/158] fix: NXOS hsrp_priority defaults to 100

---
 ciscoconfparse/models_nxos.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 5af7809..9547087 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1517,8 +1517,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                 retval = hsrpobj.re_match_iter_typed(
                     r"^\s+priority\s+(\d+)", result_type=int, default=DEFAULT_PRI
                 )
-                if retval != DEFAULT_PRI:
-                    return retval
+                return retval
 
     @property
     def hsrp_hello_timer(self):
-- 
2.43.0


From db365d99a3b517fd873e81286dde870316212815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 096/158] fix: NXOS hsrp timers of an interface without HSRP

---
 ciscoconfparse/models_nxos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 9547087..f56071e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1525,6 +1525,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ##     group on the interface
 
         # timers msec 250 msec 750
+        retval = 0.0
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
@@ -1549,6 +1550,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ##     group on the interface
 
         # timers msec 250 msec 750
+        retval = 0.0
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-- 
2.43.0


From 147327f5509ad472ffd8f1a2d62c441bd22b0f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 097/158] fix: NXOS hsrp timers in seconds and milliseconds

---
 ciscoconfparse/models_nxos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index f56071e..b57069f 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1529,10 +1529,10 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+(\d+)\s+\d+", result_type=float, default=0.0
+                    r"^\s+timers\s+(\d+)\s", result_type=float, default=0.0
                 )
                 timer_msec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+msec\s+(\d+)\s+msec\s+\d+",
+                    r"^\s+timers\s+msec\s+(\d+)\s",
                     result_type=float,
                     default=0.0,
                 )
@@ -1554,10 +1554,10 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+\d+\s+(\d+)", result_type=float, default=0.0
+                    r"^\s+timers\s+(?:msec\s+)?\d+\s+(\d+)", result_type=float, default=0.0
                 )
                 timer_msec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+msec\s+\d+\s+msec\s+(\d+)",
+                    r"^\s+timers\s+(?:msec\s+)?\d+\s+msec\s+(\d+)",
                     result_type=float,
                     default=0.0,
                 )
-- 
2.43.0


From 6c8e90c6f7c81a157dd4fe97908419847c33fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 098/158] fix: NXOS hsrp_authentication_md5_keychain reads the
 NXOS command

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index b57069f..0c82417 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1612,8 +1612,8 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*authentication\s+md5\s+key-chain\s+(\S+)",
-            group=2,
+            r"^\s+authentication\s+md5\s+key-chain\s+(\S+)",
+            group=1,
             result_type=str,
             default="",
         )
-- 
2.43.0


From 350926dddd2a00dedfe09a4bbe2d097010bc026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 099/158] fix: NXOS description of one character

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0c82417..43802b3 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -674,7 +674,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 3e8bca2e789f16cb8af3fe94d61036a019b7da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 100/158] fix: NXOS is_vpc_peerlink is a boolean

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 43802b3..5bf4c82 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -286,7 +286,7 @@ urn -1 if it's not configured in a port-channel
     def is_vpc_peerlink(self):
         """Return a boolean indicating whether this port is configured as a vpc peer-link port"""
         retval = self.re_match_iter_typed(
-            r"^\s*vpc\s+peer-link", result_type=str, default=""
+            r"^\s*(vpc\s+peer-link)", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From adc25ac03b17cd2e1b74559e87310ce58da9b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 101/158] fix: NXOS route nexthop_str has no trailing blank

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 5bf4c82..1019571 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2206,10 +2206,10 @@ class NXOSRouteLine(BaseNXOSRouteLine):
     @property
     def nexthop_str(self):
         if self._address_family == "ip":
-            if self.next_hop_interface:
+            if self.next_hop_interface and self.next_hop_addr:
                 return self.next_hop_interface + " " + self.next_hop_addr
             else:
-                return self.next_hop_addr
+                return self.next_hop_interface or self.next_hop_addr
         elif self._address_family == "ipv6":
             retval = self.re_match_typed(
                 r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-- 
2.43.0


From df2bc9fa879b91e49c3388d6ecf368f5e78a7236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 102/158] fix: NXOS ipv6 routes in a vrf have a network and a
 next hop

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1019571..ca7baba 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2174,7 +2174,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
+                r"^ipv6\s+route\s+(vrf\s+\S+\s+)?(\S+?)\/\d+",
                 group=2,
                 result_type=str,
                 default="",
@@ -2212,7 +2212,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
                 return self.next_hop_interface or self.next_hop_addr
         elif self._address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
+                r"^ipv6\s+route\s+(vrf\s+\S+\s+)?\S+\s+(\S+)",
                 group=2,
                 result_type=str,
                 default="",
-- 
2.43.0


From dc922a31d08dff71171bc50c7c6629c90c0e55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 103/158] fix: NXOS route options are read in any order

---
 ciscoconfparse/models_nxos.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ca7baba..ff82a96 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2099,10 +2099,12 @@ _RE_IP_ROUTE = re.compile(
 (?P<masklen>\d+)                        # Netmask detection
 (?:\s+(?P<nh_intf>[^\d]\S+))?           # NH intf
 (?:\s+(?P<nh_addr>\d+\.\d+\.\d+\.\d+))? # NH addr
-(?:\s+track\s+(?P<track_group>\d+))?    # Tracking object
-(?:\s+name\s+(?P<name>\S+))?     # Route name
-(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
-(?:\s+(?P<ad>\d+))?              # Admin distance
+(?:\s+(?:                        # Options, in any order
+  track\s+(?P<track_group>\d+)   # Tracking object
+  |name\s+(?P<name>\S+)          # Route name
+  |tag\s+(?P<tag>\d+)            # Route tag
+  |(?P<ad>\d+)                   # Admin distance
+))*
 """,
     re.VERBOSE,
 )
-- 
2.43.0


From f63a8ff7b93ddb146e31c07eb978cc78e468db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 104/158] fix: NXOS ipv6 routes have no tracking object

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ff82a96..6096112 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2262,7 +2262,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def tracking_object_name(self):
-        return self.route_info["track_group"]
+        return self.route_info.get("track_group")
 
 
 ################################
-- 
2.43.0


From 49a78ab1185a4ae2b7144b1c2ebab43c5f6f4a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 105/158] fix: NXOS AAA methods are a list of words

---
 ciscoconfparse/models_nxos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 6096112..ef21a30 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2334,7 +2334,7 @@ class NXOSAaaLoginAuthenticationLine(NXOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2357,7 +2357,7 @@ class NXOSAaaEnableAuthenticationLine(NXOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2381,7 +2381,7 @@ class NXOSAaaCommandsAuthorizationLine(NXOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2405,7 +2405,7 @@ class NXOSAaaConsoleAuthorizationLine(NXOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
-- 
2.43.0


From 27d01cb2f3516b3876fe057edb7182d892768e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 106/158] fix: NXOS AAA lists with only a server group, without
 one, or without a level

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ef21a30..af4ef80 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2328,7 +2328,7 @@ class NXOSAaaLoginAuthenticationLine(NXOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\slogin\s(\S+)(?:\sgroup\s(\S+))?(.*)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
@@ -2351,7 +2351,7 @@ class NXOSAaaEnableAuthenticationLine(NXOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\sauthentication\senable\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\senable\s(\S+)(?:\sgroup\s(\S+))?(.*)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
@@ -2374,7 +2374,7 @@ class NXOSAaaCommandsAuthorizationLine(NXOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\sauthorization\scommands\s(\d+)\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthorization\scommands(?:\s(\d+))?\s(\S+)(?:\sgroup\s(\S+))?(.*)$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
-- 
2.43.0


From 077af309d4507fc00061b9ae560e189be0c51bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 107/158] fix: NXOS server_private reads a server without
 options

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index af4ef80..e694b9b 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2312,7 +2312,7 @@ class NXOSAaaGroupServerLine(NXOSCfgLine):
     @property
     def server_private(self, re=re):
         retval = set()
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
-- 
2.43.0


From de608ea247de23d35e66d1055963cf41a9c39076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 108/158] fix: NXOS line_range is a list and exec-timeouts are
 readable

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index e694b9b..db8934e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2000,7 +2000,7 @@ class NXOSAccessLine(NXOSCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     def manual_exectimeout_minutes(self):
@@ -2009,7 +2009,7 @@ class NXOSAccessLine(NXOSCfgLine):
 
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2018,7 +2018,7 @@ class NXOSAccessLine(NXOSCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From 122341e70097686a8546b47443bb92160d725ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 109/158] fix: NXOS has_stp_mode_rapidpvst can be reached

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index db8934e..a90a91e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1738,7 +1738,7 @@ class NXOSIntfGlobal(NXOSCfgLine):
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
         if re.search(
-            r"^(no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)",
+            r"^(no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)|(spanning-tree\smode\srapid-pvst)",
             line,
         ):
             return True
-- 
2.43.0


From ba43a1ecd13a69cac73a82633aec8044520fe8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 110/158] fix: NXOS vpc_peer_keepalive timeout is not the
 hold-timeout

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a90a91e..d288f93 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1879,7 +1879,7 @@ class NXOSvPCLine(NXOSCfgLine):
             r"peer-keepalive\s+.*?interval\s+(\d+)", result_type=int, default=-1
         )
         timeout = self.re_match_iter_typed(
-            r"peer-keepalive\s+.*?timeout\s+(\d+)", result_type=int, default=-1
+            r"peer-keepalive\s+.*?\stimeout\s+(\d+)", result_type=int, default=-1
         )
         prec = self.re_match_iter_typed(
             r"peer-keepalive\s+.*?precedence\s+(\S+)", result_type=str, default=""
-- 
2.43.0


From e15d225e365d9730cadfc41dac37e43053bd9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:19 +0000
Subject: [PATCH 111/158] fix: 'no ip arp synchronize' does not enable ARP
 synchronization on NX-OS

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index d288f93..28567cb 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1860,7 +1860,7 @@ class NXOSvPCLine(NXOSCfgLine):
     @property
     def has_ip_arp_synchronize(self):
         retval = self.re_match_iter_typed(
-            r"(ip\s+arp\s+synchronize)", result_type=bool, default=False
+            r"^\s+(ip\s+arp\s+synchronize)", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From aaa247682d53fbaf8e69fc8b5edc033ea3523305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 112/158] fix: Junos is_intf is not True for the statements of
 a physical interface

---
 ciscoconfparse/models_junos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 7d826b3..1b4b24a 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -182,7 +182,7 @@ class JunosCfgLine(BaseCfgLine):
                 # identify a junos subinterfaces (i.e. unit numbers)
                 ##############################################################
                 for unitobj in intfobj.children:
-                    if unitobj is self:
+                    if unitobj is self and unitobj.text.split()[0:1] == ["unit"]:
                         return True
             return False
         return False
-- 
2.43.0


From 5527ec52e6d5a1a0080d3e0e4a4cae1f84505ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 113/158] fix: Junos is_subintf looks at the line, not for
 'unit' in a name

---
 ciscoconfparse/models_junos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 1b4b24a..ae988ec 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -226,7 +226,7 @@ class JunosCfgLine(BaseCfgLine):
            >>>
         """
         if self.is_intf is True:
-            if "unit" in self.intf_name:
+            if self.text.split()[0:1] == ["unit"]:
                 return True
         return False
 
-- 
2.43.0


From 48a4cab4d0edaedc4c0df2bfef333595d9a1bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 114/158] fix: Junos is_switchport is not fooled by
 descriptions

---
 ciscoconfparse/models_junos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index ae988ec..f42a62f 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -237,7 +237,7 @@ class JunosCfgLine(BaseCfgLine):
         """Return True if this is a switchport interface"""
         if self.is_intf is True:
             for cobj in self.all_children:
-                if "family ethernet-switching" in cobj.text:
+                if cobj.text.split()[0:2] == ["family", "ethernet-switching"]:
                     return True
         return False
 
-- 
2.43.0


From 138b416ac58f203b4d2f6f3b8ed28e81f7af44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 115/158] fix: ASA hostname and mtu lines answer is_intf

---
 ciscoconfparse/models_asa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 4d0f4b9..9f164dc 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -924,7 +924,7 @@ class ASAIntfLine(BaseASAIntfLine):
 ##
 
 
-class ASAIntfGlobal(BaseCfgLine):
+class ASAIntfGlobal(ASACfgLine):
     @logger.catch(reraise=True)
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -947,7 +947,7 @@ class ASAIntfGlobal(BaseCfgLine):
 ##
 
 
-class ASAHostnameLine(BaseCfgLine):
+class ASAHostnameLine(ASACfgLine):
     @logger.catch(reraise=True)
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -976,7 +976,7 @@ class ASAHostnameLine(BaseCfgLine):
 ##
 
 
-class BaseASARouteLine(BaseCfgLine):
+class BaseASARouteLine(ASACfgLine):
     @logger.catch(reraise=True)
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-- 
2.43.0


From c76e61de0b06e28b732b256ba8165a7d838b94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 116/158] fix: IOS is_portchannel_intf answers for every line

---
 ciscoconfparse/models_cisco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 00ea4da..f2f4723 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -853,7 +853,10 @@ class IOSCfgLine(BaseCfgLine):
         -------
         bool
         """
-        return "channel" in self.name.lower()
+        intf_regex = r"^interface\s+(\S*channel)"
+        if self.re_match(re.compile(intf_regex, re.I)):
+            return True
+        return False
 
 
 ##
-- 
2.43.0


From 395e2ae3d57c1ccf8c5f73678b23c204d91dca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 117/158] fix: IOS is_intf answers for a bare interface command

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index f2f4723..05100be 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -665,7 +665,7 @@ class IOSCfgLine(BaseCfgLine):
            True
            >>>
         """
-        if self.text[0:10] == "interface " and self.text[10] != " ":
+        if self.text[0:10] == "interface " and self.text[10:11] not in ("", " "):
             return True
         return False
 
-- 
2.43.0


From dcc70b9238ff9af5a07155abd216fa984e6d642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 118/158] fix: IOS-XR is_portchannel_intf answers for every
 line

---
 ciscoconfparse/models_iosxr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 1ee6629..9fd82e0 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -347,7 +347,10 @@ class IOSXRCfgLine(BaseCfgLine):
         -------
         bool
         """
-        return "channel" in self.name.lower()
+        intf_regex = r"^interface\s+(\S*channel)"
+        if self.re_match(re.compile(intf_regex, re.I)):
+            return True
+        return False
 
 
 ##
-- 
2.43.0


From 61fe96cbbf3d89a5ac634fe48e3e9ba8154aab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 119/158] fix: IOS-XR is_intf answers for a bare interface
 command

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 9fd82e0..3dbc4d4 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -152,7 +152,7 @@ class IOSXRCfgLine(BaseCfgLine):
            True
            >>>
         """
-        if self.text[0:10] == "interface " and self.text[10] != " ":
+        if self.text[0:10] == "interface " and self.text[10:11] not in ("", " "):
             return True
         return False
 
-- 
2.43.0


From bf2ad674222d50603257590e47b33f9fd9658d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 120/158] fix: NX-OS is_portchannel_intf answers for every line

---
 ciscoconfparse/models_nxos.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 28567cb..7f919b2 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -280,7 +280,10 @@ urn -1 if it's not configured in a port-channel
         """Return a boolean indicating whether this port is a port-channel intf
 
         """
-        return "channel" in self.name.lower()
+        intf_regex = r"^interface\s+(\S*channel)"
+        if self.re_match(re.compile(intf_regex, re.I)):
+            return True
+        return False
 
     @property
     def is_vpc_peerlink(self):
-- 
2.43.0


From f41adc5af8dc2c5c972f916e13664e237a95d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 121/158] fix: NX-OS is_intf answers for a bare interface
 command

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 7f919b2..f687504 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -124,7 +124,7 @@ class NXOSCfgLine(BaseCfgLine):
         """
         # intf_regex = r'^interface\s+(\S+.+)'
         # if self.re_match(intf_regex):
-        if self.text[0:10] == "interface " and self.text[10] != " ":
+        if self.text[0:10] == "interface " and self.text[10:11] not in ("", " "):
             return True
         return False
 
-- 
2.43.0


From 866906ad01e4b48b79c91011e8819d1c3cb8ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 122/158] fix: ASA is_virtual_intf knows Port-channel as ASA
 writes it

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 9f164dc..fa0ddbc 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -119,7 +119,7 @@ class ASACfgLine(BaseCfgLine):
     @logger.catch(reraise=True)
     def is_virtual_intf(self):
         intf_regex = r"^interface\s+(Loopback|Tunnel|Virtual-Template|Port-Channel)"
-        if self.re_match(intf_regex):
+        if self.re_match(re.compile(intf_regex, re.I)):
             return True
         return False
 
-- 
2.43.0


From 3e9c8c6063692f10e95a36c5c94a8598d64b29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 123/158] fix: IOS-XR vrf returns the VRF of the interface

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 3dbc4d4..a85ed7d 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1109,7 +1109,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     def vrf(self):
         # See Github Issue #235...
         retval = self.re_match_iter_typed(
-            r"^\s*vrf\s(\S+)$", result_type=str, group=2, default=""
+            r"^\s*vrf\s(\S+)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 603d7eb11b06c7630322c8be63fc937cc933998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 124/158] fix: IOS-XR description of one character

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index a85ed7d..c8ddd29 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -790,7 +790,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 0566c3b734dcdb4feb37029d558e352cd87fa476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 125/158] fix: IOS-XR ip_helper_addresses reads helper-address
 commands only

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index c8ddd29..1b2e69d 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1437,7 +1437,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
            >>>"""
         retval = list()
         for child in self.children:
-            if "helper-address" in child.text:
+            if child.re_match(r"^\s*(ip\s+helper-address)\s"):
                 addr = child.re_match_typed(
                     r"ip\s+helper-address\s.*?(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From 08615777998761043d61db50ed318454cfc6fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:08 +0000
Subject: [PATCH 126/158] fix: IOS-XR is_abbreviated_as knows the numbers with
 letters

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 1b2e69d..d95b2c8 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1164,7 +1164,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def is_abbreviated_as(self, val):
         r"""Test whether `val` is a good abbreviation for the interface"""
-        if val.lower() in self.abbvs:
+        if val.lower() in {ii.lower() for ii in self.abbvs}:
             return True
         return False
 
-- 
2.43.0


From 562e459d05fa242a782461b1b4fb1fb8d028dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 127/158] fix: ASA has_ip_pim_sparse_mode answers

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index fa0ddbc..ef22457 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -522,7 +522,7 @@ class BaseASAIntfLine(ASACfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From d8f152496f66acf8e11c319ae21128e69370321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 128/158] fix: ASA description of one character

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ef22457..1c14454 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -262,7 +262,7 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def description(self):
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From c1e6e78d0ca0ac56ef7e36acdadb726f99b72341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 129/158] fix: ASA service object-groups may hold each other

---
 ciscoconfparse/ciscoconfparse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 22dee7a..8c3840d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5980,6 +5980,21 @@ class ConfigList(MutableSequence):
             retval[name] = obj
         return retval
 
+    # This method is on ConfigList()
+    @ property
+    @ logger.catch(reraise=True)
+    def object_group_service(self):
+        """Return a dictionary of name to object-group service mappings"""
+        if self.syntax != "asa":
+            raise RequirementFailure()
+
+        retval = {}
+        obj_rgx = self._RE_OBJSVC
+        for obj in self.ccp_ref.find_objects(obj_rgx):
+            name = obj.re_match_typed(obj_rgx, group=1, result_type=str)
+            retval[name] = obj
+        return retval
+
     # This method was on ASAConfigList(); now tentatively on ConfigList()
     @ property
     @ logger.catch(reraise=True)
-- 
2.43.0


From 5e8b9042a2befde9e803cff2cf81fddd91dc9f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 130/158] fix: ASA port-object eq with a port of one digit

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 1c14454..e514528 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -774,7 +774,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
  (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S+))
-|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
+|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.*))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
 """.format(
-- 
2.43.0


From cce6a661cfee4083ea271a4279242a885722fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 131/158] fix: ASA service-object with an operator

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index e514528..bcaf2cf 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -773,7 +773,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 ##
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
- (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S+))
+ (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>(?:eq|neq|lt|gt)\s+\S+|range\s+\S+\s+\S+|\S+))
 |(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.*))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
-- 
2.43.0


From 7fd6a56ff7aa099d1a4179ce9c859443b28fb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 132/158] fix: ASA access-list remark of one character

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index bcaf2cf..80776d8 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1147,7 +1147,7 @@ _ACL_ICMP_PROTOCOLS = "alternate-address|conversion-error|echo-reply|echo|inform
 _ACL_LOGLEVELS = r"alerts|critical|debugging|emergencies|errors|informational|notifications|warnings|[0-7]"
 _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
 # remark
- (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.+?)$)
+ (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.*?)$)
 
 # extended service object with source network object, destination network object
 |(?:^access-list\s+(?P<acl_name1>\S+)
-- 
2.43.0


From 4778ba0eccf989d149d3920736efaea0ebdc2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 133/158] fix: ASA icmp ACE to any4 keeps its log, time-range
 and disable

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 80776d8..a683482 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1258,7 +1258,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
   )
   (?:\s+       # any, any4, host foo, object-group FOO or 10.0.0.0 255.255.255.0
      (?:
-       (?P<dst_network4a>any|any4)
+       (?P<dst_network4a>any4|any)
       |(?:host\s+(?P<dst_network4b>\S+))
       |(?:object\s+(?P<dst_object4>\S+))
       |(?:object-group\s+(?P<dst_networkobject4>\S+))
-- 
2.43.0


From 0345f1d1e52478dde3a9f66890d48dbcd78a4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 134/158] fix: req_cfgspec_all_diff(ignore_ws=True) compares
 text

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8c3840d..8e536f0 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3524,7 +3524,8 @@ class CiscoConfParse(object):
         rgx = dict()
         if ignore_ws is True:
             for line in cfgspec:
-                rgx[line] = build_space_tolerant_regex(line)
+                # cfgspec lines are text, compare them word by word...
+                rgx[line] = r"\s+".join(re.escape(ii) for ii in line.split())
 
         skip_cfgspec = dict()
         retval = list()
-- 
2.43.0


From b4dba76670535eac95cf09bbd30d8605f35a96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 135/158] fix: add_uncfgtext() keeps the text after 'no'

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 07d61f0..f10589f 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -605,7 +605,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         deprecation_warn_str = "add_uncfgtext() is deprecated and will be removed."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
-        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", "\3", unconftext)
+        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", r"\3", unconftext)
         myindent = self.parent.child_indent
 
         # write access to self.uncfgtext is not supported
-- 
2.43.0


From d595fbcb2a43755a3674c9b862c09a14f0eac8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 136/158] fix: add_uncfgtext() has the indent of its line

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index f10589f..16a3b48 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -606,7 +606,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
         conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", r"\3", unconftext)
-        myindent = self.parent.child_indent
+        myindent = self.indent
 
         # write access to self.uncfgtext is not supported
         self._uncfgtext_to_be_deprecated = myindent * " " + "no " + conftext
-- 
2.43.0


From 2d2c60118384f0995e3c6099c3ea3dce4a36203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:30 +0000
Subject: [PATCH 137/158] fix: __ccp_re__(target_str=...) keeps the result of
 its search

---
 ciscoconfparse/ccp_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index e55c924..1c85b43 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -588,6 +588,8 @@ class __ccp_re__(object):
         else:
             raise ValueError
 
+        self.groups = groups
+        self.search_result = None
         self.attempted_search = False
         if isinstance(target_str, str):
             self.target_str = target_str
@@ -595,9 +597,6 @@ class __ccp_re__(object):
         else:
             self.target_str = target_str
 
-        self.groups = groups
-        self.search_result = None
-
     # do NOT wrap with @logger.catch(...)
     def __repr__(self):
         return f"""ccp_re({self.regex}, {self.target_str})"""
-- 
2.43.0


From ab6daa6021af6fefe29b3dc00962e11467a7f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 138/158] fix: dns_query() asks the server it was given

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1c85b43..673c9dd 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2630,7 +2630,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     # input = input_str.strip()
     retval = set()
     rr = Resolver()
-    rr.server = [socket.gethostbyname(server)]
+    rr.nameservers = [socket.gethostbyname(server)]
     rr.timeout = float(timeout)
     rr.lifetime = float(timeout)
     start = time.time()
-- 
2.43.0


From 46806079a7fd688f77a5b4cacf8ff2fe27c98414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 139/158] fix: dns_query() looks up A and AAAA records

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 673c9dd..235a77c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2636,7 +2636,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     start = time.time()
     if (query_type == "A") or (query_type == "AAAA"):
         try:
-            answer = query(input_str, query_type)
+            answer = rr.query(input_str, query_type)
             duration = time.time() - start
             for result in answer:
                 response = DNSResponse(
-- 
2.43.0


From 7915b73dc2175d0184cd1ef60ec78328d3fdb789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 140/158] fix: dns_query() looks up MX records

---
 ciscoconfparse/ccp_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 235a77c..102cd10 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2702,8 +2702,9 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
+                    duration=duration,
                     input_str=input_str,
-                    result_str=str(result.target),
+                    result_str=str(result.exchange),
                 )
                 response.preference = int(result.preference)
                 retval.add(response)
-- 
2.43.0


From 3e4968cf8afaacc155d07af6aa53d379322848e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 141/158] fix: dns_query() looks up TXT records

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 102cd10..ea549fd 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2800,7 +2800,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 response = DNSResponse(
                     query_type=query_type,
                     duration=duration,
-                    input_str=inaddr,
+                    input_str=input_str,
                     result_str=str(result.strings),
                 )
                 retval.add(response)
-- 
2.43.0


From 6e2f85eba9ef21fb66eaad95a80d557395b1e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 142/158] fix: dns_query() transfers a zone from a server given
 by name

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index ea549fd..859909a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2665,7 +2665,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
 
     elif query_type == "AXFR":
         """This is a hack: return text of zone transfer, instead of axfr objs"""
-        _zone = zone.from_xfr(query.xfr(server, input_str, lifetime=timeout))
+        _zone = zone.from_xfr(query.xfr(rr.nameservers[0], input_str, lifetime=timeout))
         return [_zone[node].to_text(node) for node in _zone.nodes.keys()]
     elif query_type == "CNAME":
         try:
-- 
2.43.0


From f9e713e2b58fb3fd60ce1d1498c16831d2eb4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:08 +0000
Subject: [PATCH 143/158] fix: HDiff(debug=2) accepts a CiscoConfParse()
 instance

---
 ciscoconfparse/ciscoconfparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8e536f0..64eac90 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4271,10 +4271,6 @@ class HDiff(object):
     @ logger.catch(reraise=True)
     def parse_hdiff_configs(self):
 
-        if self.debug > 1:
-            logger.info("HDiff().before_config={0}{1}".format(os.linesep, '\n'.join(self.before_config)))
-            logger.info("HDiff().after_config={0}{1}".format(os.linesep, '\n'.join(self.after_config)))
-
         # TODO - incorporate difflib.get_close_matches() to reorder the
         #     diff (in unified format)
         # NOTE the lines of a CiscoConfParse() instance are parsed again; the
@@ -4301,6 +4297,10 @@ class HDiff(object):
             ignore_blank_lines=self.ignore_blank_lines,
         )
 
+        if self.debug > 1:
+            logger.info("HDiff().before_config={0}{1}".format(os.linesep, '\n'.join(self.parse_before.ioscfg)))
+            logger.info("HDiff().after_config={0}{1}".format(os.linesep, '\n'.join(self.parse_after.ioscfg)))
+
     @ logger.catch(reraise=True)
     def build_diff_obj_lists(self):
         """Assign the `diff_side` attribute to parse_before and parse_after *CfgLine() instances"""
-- 
2.43.0


From 7d84b058af9b896a6c6538ebd89decdd09294e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:07 +0000
Subject: [PATCH 144/158] fix: run_this_posix_command() uses its environment

---
 ciscoconfparse/ccp_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 859909a..0c05565 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -207,7 +207,7 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
     """
 
     if isinstance(env, dict):
-        for key, value in env.items:
+        for key, value in env.items():
             if isinstance(key, str) and isinstance(value, (str, int, float)):
                 pass  # noqa
             else:
@@ -231,7 +231,8 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
 
     output_namedtuple = subprocess.run(
         cmdparts, timeout=timeout, capture_output=True, shell=shell, cwd=cwd,
-        encoding=encoding
+        encoding=encoding,
+        env=None if env is None else {key: str(value) for key, value in env.items()},
     )
     (return_code, stdout, stderr) = (output_namedtuple.returncode, output_namedtuple.stdout, output_namedtuple.stderr)
 
-- 
2.43.0


From f3fd346e071b70bd4b37a9b7c7ebc03e24337fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:29 +0000
Subject: [PATCH 145/158] fix: an IPv4 network does not contain an IPv6 address

---
 ciscoconfparse/ccp_util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 0c05565..951d60a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1340,7 +1340,10 @@ class IPv4Obj(object):
 
         # For all other cases, see below...
         try:
-            if self.network_object.prefixlen == 0:
+            if self.version != val.version:
+                # The address families have no address in common
+                return False
+            elif self.network_object.prefixlen == 0:
                 return True
             elif self.network_object.prefixlen > val.network_object.prefixlen:
                 # obvious shortcut... if this object's mask is longer than
@@ -2051,7 +2054,10 @@ class IPv6Obj(object):
             return False
 
         try:
-            if self.network_object.prefixlen == 0:
+            if self.version != val.version:
+                # The address families have no address in common
+                return False
+            elif self.network_object.prefixlen == 0:
                 return True
             elif self.network_object.prefixlen > val.network_object.prefixlen:
                 # obvious shortcut... if this object's mask is longer than
-- 
2.43.0


From b953f44d3df996faae7a2940dd6e668e5a0fcf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:51 +0000
Subject: [PATCH 146/158] fix: lines and lists of lines compare with <= and >=

---
 ciscoconfparse/ccp_abc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 16a3b48..7ce7780 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -167,6 +167,16 @@ class BaseCfgLine(metaclass=ABCMeta):
             return True
         return False
 
+    # On BaseCfgLine()
+    @logger.catch(reraise=True)
+    def __le__(self, val):
+        return self.linenum <= val.linenum
+
+    # On BaseCfgLine()
+    @logger.catch(reraise=True)
+    def __ge__(self, val):
+        return self.linenum >= val.linenum
+
     # On BaseCfgLine()
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From b124cd723626bbf15f4e93bee5bf2cb8c6fe3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 147/158] fix: IOS-XR interfaces read ipv4 access-group NAME
 ingress and egress

---
 ciscoconfparse/models_iosxr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index d95b2c8..3f96fc9 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1920,7 +1920,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def ipv4_accessgroup_in(self):
         retval = self.re_match_iter_typed(
-            r"^\s*ip\saccess-group\s+(\S+)\s+in\s*$", result_type=str, default=""
+            r"^\s*ip(?:v4)?\s+access-group\s+(\S+)\s+in(?:gress)?(?:\s.*)?$", result_type=str, default=""
         )
         return retval
 
@@ -1929,7 +1929,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def ipv4_accessgroup_out(self):
         retval = self.re_match_iter_typed(
-            r"^\s*ip\saccess-group\s+(\S+)\s+out\s*$", result_type=str, default=""
+            r"^\s*ip(?:v4)?\s+access-group\s+(\S+)\s+(?:out|egress)(?:\s.*)?$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 29f26491b01e35726b6a71a2db256b3b1c2c0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 148/158] fix: IOS-XR manual_ip_mtu reads ipv4 mtu

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 3f96fc9..15a44da 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1048,7 +1048,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         ## Due to the diverse platform defaults, this should be the
         ##    only mtu information I plan to support
         retval = self.re_match_iter_typed(
-            r"^\s*ip\s+mtu\s+(\d+)$", result_type=int, default=0
+            r"^\s*ip(?:v4)?\s+mtu\s+(\d+)$", result_type=int, default=0
         )
         return retval
 
-- 
2.43.0


From 8181c5cc96a9b8374a22b7fcd58e00953f90da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 149/158] fix: interfaces without an address answer with an
 address object of their own (models_nxos.py)

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index f687504..9ee8889 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -748,7 +748,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except Exception:
-            return self.default_ipv4_addr_object
+            return IPv4Obj("0.0.0.1/32", strict=False)
 
     @property
     @logger.catch(reraise=True)
@@ -783,7 +783,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except (Exception) as e:
-            return self.default_ipv4_addr_object
+            return IPv4Obj("0.0.0.1/32", strict=False)
 
     @property
     def has_autonegotiation(self):
-- 
2.43.0


From 627dcd26b93d1d44523f593c1ccb0e0ee1263c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 150/158] fix: interfaces without an address answer with an
 address object of their own (models_iosxr.py)

---
 ciscoconfparse/models_iosxr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 15a44da..c657fe9 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -860,7 +860,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except Exception:
-            return self.default_ipv4_addr_object
+            return IPv4Obj("0.0.0.1/32", strict=False)
 
     # This method is on BaseIOSXRIntfLine()
     @property
@@ -902,7 +902,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except Exception:
-            return self.default_ipv4_addr_object
+            return IPv4Obj("0.0.0.1/32", strict=False)
 
     # This method is on BaseIOSXRIntfLine()
     @property
-- 
2.43.0


From 87bbb0a62e21e5969d4dc737c010fd42c9a06b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 151/158] fix: networks of an ASA object-group are new objects
 for each caller

---
 ciscoconfparse/models_asa.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index a683482..5d15615 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -752,20 +752,7 @@ class ASAObjGroupNetwork(ASACfgLine):
     def networks(self):
         """Return a list of IPv4Obj objects which represent the address space allowed by
         This object-group"""
-        ## FIXME: Implement object caching for other ConfigList objects
-        ## Return a cached result if the networks lookup has already been done
-
-        retval = list()
-        for net_str in self.network_strings:
-            ## Check the ASACfgList cache of network objects
-            if not self.confobj._network_cache.get(net_str, False):
-                net = IPv4Obj(net_str)
-                self.confobj._network_cache[net_str] = net
-                retval.append(net)
-            else:
-                retval.append(self.confobj._network_cache[net_str])
-
-        return retval
+        return [IPv4Obj(net_str) for net_str in self.network_strings]
 
 
 ##
-- 
2.43.0


From 44d7d183e4cebd46a84cd191fb8ed13f07afe608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:36 +0000
Subject: [PATCH 152/158] fix: insert next to the line of a line object found
 before a commit, not next to all lines with its text

---
 ciscoconfparse/ciscoconfparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 64eac90..8369ea9 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5321,7 +5321,9 @@ class ConfigList(MutableSequence):
             if retval or exist_val.linenum == -1:
                 # No line is returned if exist_val is deleted already
                 return retval
-            # exist_val was parsed before the last commit
+            # exist_val was parsed before the last commit, which kept the lines
+            if exist_val.linenum < len(self._list) and self._list[exist_val.linenum].text == exist_val.text:
+                return [exist_val.linenum]
             return [idx for idx, obj in enumerate(self._list) if obj.text == exist_val.text]
         return [idx for idx, obj in enumerate(self._list) if re.search(exist_val, obj.text)]
 
-- 
2.43.0


From 82d5a910f583d618d6d06eff37890f02c57272f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:13 +0000
Subject: [PATCH 153/158] fix: append_to_family of a line object found before a
 commit appends below the family

---
 ciscoconfparse/ccp_abc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 7ce7780..0c469de 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -904,9 +904,14 @@ class BaseCfgLine(metaclass=ABCMeta):
         ## BaseCfgLine.append_to_family(), insert a single line after this
         ##  object's children
         known_lines = set(id(obj) for obj in self.confobj)
-        family = [obj for obj in self.all_children if id(obj) in known_lines]
+        owner = self
+        if id(self) not in known_lines and -1 < self.linenum < len(self.confobj):
+            # This object was found before a commit, which kept the lines
+            current_obj = self.confobj[self.linenum]
+            owner = current_obj if current_obj.text == self.text else self
+        family = [obj for obj in owner.all_children if id(obj) in known_lines]
         # If the object has no children, insert after the object itself
-        last_line = family[-1] if family else self
+        last_line = family[-1] if family else owner
         return self.confobj.insert_after(last_line, insertstr, atomic=False)
 
     # On BaseCfgLine()
-- 
2.43.0


From b06d126f19dc630d88e95ae04afba6d6093e04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:35 +0000
Subject: [PATCH 154/158] fix: list and compress the text members of a
 CiscoRange by number

---
 ciscoconfparse/ccp_util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 951d60a..90400ae 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5216,7 +5216,7 @@ class CiscoRange(MutableSequence):
     def __add__(self, other):
         if isinstance(other, CiscoRange):
             retval = copy.copy(self)
-            retval._list = sorted(set(self._list + other._list))
+            retval._list = sorted(set(self._list + other._list), key=self.member_order)
             return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
@@ -5234,6 +5234,11 @@ class CiscoRange(MutableSequence):
             raise InvalidCiscoRange(error)
 
     # This method is on CiscoRange()
+    @staticmethod
+    def member_order(val):
+        """Return the sort key of a member; text members are sorted by their number, as in attribute_sort()"""
+        return int(val) if isinstance(val, str) and val.isdigit() else val
+
     @logger.catch(reraise=True)
     def attribute_sort(self, target_list=None, attribute="sort_list", reverse=False):
         """Sort target_list based on the object attribute specified in attribute.  By default, CiscoRange().attribute_sort() sorts the CiscoRange() based on the `sort_list` attribute."""
@@ -5364,7 +5369,7 @@ class CiscoRange(MutableSequence):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
         try:
             # Disable linter qa checks on this embedded list syntax...
-            retval = sorted(set(self._list), reverse=self.reverse) # noqa
+            retval = sorted(set(self._list), key=self.member_order, reverse=self.reverse) # noqa
             if result_type == "auto":
                 if len(self._list) > 0:
                     result_type = self.member_type
@@ -5465,7 +5470,7 @@ class CiscoRange(MutableSequence):
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
-                input_str.append(str(component))
+                input_str.append(int(component))
         # Handle int() instances...
         elif self.member_type is int:
             prefix_str = ""
-- 
2.43.0


From d46b47e74a83596fd22f3ac8313f07524b7e5f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:40 +0000
Subject: [PATCH 155/158] fix: get_typed_dict() returns the default for a group
 which took no part in the match

---
 ciscoconfparse/ccp_abc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 0c469de..dcf8854 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1001,7 +1001,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             # in `type_dict`...
             _groupdict = regex.groupdict()
             for _regex_key, _type in type_dict.items():
-                retval[_regex_key] = _groupdict.get(_regex_key, default)
+                retval[_regex_key] = _groupdict.get(_regex_key)
+                if retval[_regex_key] is None:
+                    # This group is unknown, or took no part in the match
+                    retval[_regex_key] = default
                 if _type is not None and retval[_regex_key] != default:
                     retval[_regex_key] = _type(retval[_regex_key])
         elif regex is None and isinstance(type_dict, dict):
-- 
2.43.0


From 16663e68b33e3037adf7b7e6c453e4c51f3ba347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:40 +0000
Subject: [PATCH 156/158] fix: re_match_iter_typed() does not cast a group
 which took no part in the match

---
 ciscoconfparse/ccp_abc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index dcf8854..0f8bfbb 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1335,14 +1335,15 @@ class BaseCfgLine(metaclass=ABCMeta):
             # Return the result if the parent line matches the regex...
             mm = re.search(regex, self.text)
             if isinstance(mm, re.Match):
-                return result_type(mm.group(group))
+                if mm.group(group) is not None:
+                    return result_type(mm.group(group))
 
             if recurse is False:
                 for cobj in self.children:
                     if debug is True:
                         logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
                     mm = re.search(regex, cobj.text)
-                    if isinstance(mm, re.Match):
+                    if isinstance(mm, re.Match) and mm.group(group) is not None:
                         return result_type(mm.group(group))
                 ## Ref Github issue #121
                 if untyped_default is True:
@@ -1354,7 +1355,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                     if debug is True:
                         logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
                     mm = re.search(regex, cobj.text)
-                    if isinstance(mm, re.Match):
+                    if isinstance(mm, re.Match) and mm.group(group) is not None:
                         return result_type(mm.group(group))
                 ## Ref Github issue #121
                 if untyped_default is True:
-- 
2.43.0


From 3733c569abfb56dbdf07fa88b8b91f7fc12a135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:41 +0000
Subject: [PATCH 157/158] fix: CiscoConfParse().re_match_iter_typed() does not
 cast a group which took no part in the match

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8369ea9..22b9486 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3469,7 +3469,7 @@ class CiscoConfParse(object):
                 continue
 
             mm = re.search(regexspec, cobj.text)
-            if mm is not None:
+            if mm is not None and mm.group(group) is not None:
                 return result_type(mm.group(group))
         ## Ref Github issue #121
         if untyped_default:
-- 
2.43.0


From 247410935ae9b2295c383749b3c1468f422f48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:14 +0000
Subject: [PATCH 158/158] fix: HSRP tracking reads no decrement as the default
 of get_typed_dict()

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 05100be..4ce928e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -322,7 +322,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
-                if isinstance(_gg["decr"], str) and _gg["decr"] != "None":
+                if isinstance(_gg["decr"], str) and _gg["decr"] != "":
                     decrement = int(_gg["decr"].strip())
                 retval.append(
                     TrackingInterface(
-- 
2.43.0

