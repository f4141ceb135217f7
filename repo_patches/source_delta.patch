From 12e88716cf45c257d996b9d999cc043a515d42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 01/58] fix: readItemsFromUnknownLines accepted surplus items
 when reading over several lines

---
 nappy/utils/text_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..4fa185b 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -77,15 +77,15 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
     else:
         while len(rtitems) < nitems:
             items = rightStripCurlyBraces(object.readline()).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
-    if len(extras) > 0:
+    if len(rtitems) > nitems:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
 
     if rttype is not str:
-- 
2.43.0


From 83ce8c400cdd5237ccf35bf1baa16486054088d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 02/58] fix: readItemsFromUnknownLines looped for ever at the
 end of a file

---
 nappy/utils/text_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 4fa185b..0168474 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -81,7 +81,10 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextitem = object.readline()
+            if nextitem == "":
+                raise Exception("Reached end of file before finding required number (" + str(nitems) + ") of items: \n" + str(lines))
+            items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
             rtitems = rtitems + items
 
-- 
2.43.0


From 7df617026c5035db2b332b5ff3d402e925a88855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 03/58] fix: FFI 2310 data was written point by point but is
 read variable by variable

---
 nappy/na_file/na_file_2310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..1ee7ef4 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -109,7 +109,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write second independant variable and dependant variables
             var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            for n in range(self.NV):
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 863b1aa16d6b825ccdc2b99f93ef34acda41cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 04/58] fix: FFI 2310 increments were truncated to integers on
 reading

---
 nappy/na_file/na_file_2310.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 1ee7ef4..18f0faa 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -72,7 +72,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From 707a2ab7cf4856bcd8298669c2391ff5a81804c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 05/58] fix: axis definitions of FFI 3010 and 4010 were read
 with the lengths in reversed order

---
 nappy/na_file/na_file_2010.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..89f3dac 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,8 +40,9 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
+        # Axes are defined in file order so take the number of values in file order
         for i in range(self.NIV - 1):
-            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
+            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[self.NIV - 2 - i], float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
         self.X.insert(0, [])
-- 
2.43.0


From 1ad53a3b1333a9cce4a71a4ee4325815f59d844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 06/58] fix: writing FFI 2010, 3010 and 4010 reversed DX and NX
 of the caller's dictionary

---
 nappy/na_file/na_file_2010.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 89f3dac..0a0c949 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -57,10 +57,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -134,7 +134,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
-- 
2.43.0


From 3b792be1256c90893cdded59efccbf4be9f97d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 07/58] fix: writing FFI 2310 reversed XNAME of the caller's
 dictionary

---
 nappy/na_file/na_file_2310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 18f0faa..a6ea39d 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From 47b8171f62fb3cec0e5998bcb4ff0222e95416a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 08/58] fix: writing FFI 2160 reversed XNAME of the caller's
 dictionary

---
 nappy/na_file/na_file_2160.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
-- 
2.43.0


From 04f0efb50e5d807e72280990d5f062d159bab575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 09/58] fix: writing FFI 2110 reversed DX and XNAME of the
 caller's dictionary

---
 nappy/na_file/na_file_2110.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
-- 
2.43.0


From 1980b5272d8d43b1b80e14d7afe3c5208a912c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 10/58] fix: FFI 2160 character missing values containing
 spaces could not be read back

---
 nappy/na_file/na_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..d5438d8 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -271,7 +271,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)    
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
-- 
2.43.0


From 48c4d675788ad564657f76d5a6faa2b6909a5882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 11/58] fix: FFI 2160 character independent variables
 containing spaces could not be read back

---
 nappy/na_file/na_file_2160.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..195dc0a 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -101,7 +101,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        (x1, datalines) = (nappy.utils.text_parser.readItemsFromLines(datalines[:1], 1, str), datalines[1:])
         self.X.append([])
         self.X[ivar_count].append(x1[0])
         # Set up list to take second changing independent variable
-- 
2.43.0


From c98b4edc190803cf2d3d777b8f2827cea63e45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 12/58] fix: empty names in the common header could not be
 written (stripQuotes raised IndexError)

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From 9eb0f290234501f6577dd8300c7cb6600cb6ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 13/58] fix: convertNAToCSV ignored the no_header option

---
 nappy/nappy_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..cee8ce2 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -231,7 +231,7 @@ def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
         csv_file = getFileNameWithNewExtension(na_file, "csv")
 
     fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
     fout.close()
     return True
 
-- 
2.43.0


From 001db45ba0fd1b11c0a2f0ff7cce5615b98c42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 14/58] fix: convertNCToCSV ignored the csv_file given and then
 did not write commas

---
 nappy/nappy_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index cee8ce2..49b33c5 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -302,8 +302,9 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
   
     return convertNCToNA(*[nc_file], **arg_dict)
     
-- 
2.43.0


From 28360bc40a932ac10b72613e3b28f2f125476e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 15/58] fix: convertXarrayObjectsToNA imported a module that
 does not exist and ignored size_limit

---
 nappy/nappy_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 49b33c5..f2daf2a 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,14 +338,14 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
-- 
2.43.0


From 083ae0db58b3a1b40add2c70db2e0860f540b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 16/58] fix: every volume written because of a size limit was
 listed twice

---
 nappy/nc_interface/xarray_to_na.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..4649433 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -415,8 +415,6 @@ class XarrayToNA:
             letter_count = letter_count + 1
             start = end
 
-            file_names.append(file_name_plus_letter) 
-
         return file_names
 
     def _updateWithColumnHeaders(self, na_dict, delimiter):
-- 
2.43.0


From b03c0ac6002030520d84d73ee2a287c8bce5810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 17/58] fix: no_header was ignored when files were split on the
 size limit

---
 nappy/nc_interface/xarray_to_na.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 4649433..5a2e5cd 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -313,7 +313,7 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -365,7 +365,7 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
@@ -406,7 +406,8 @@ class XarrayToNA:
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format,
+                    no_header=no_header, annotation=annotation)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
-- 
2.43.0


From 53fc8431ed7d4302f18261f47acc6b80493b0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 18/58] fix: volumes split on the size limit lost the extension
 of the file name given

---
 nappy/nc_interface/xarray_to_na.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 5a2e5cd..efd3f27 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -401,7 +402,8 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
+            base_name, extension = os.path.splitext(file_name)
+            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
             file_names.append(file_name_plus_letter)
 
             # Write data to output file
-- 
2.43.0


From 17edab86de9203801ed775fc2b67e43dbb8b8147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 19/58] fix: axes differing in only some of their values were
 taken as identical

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..0be07e6 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From d7c27048f8d26033179473953401edd165510c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 20/58] fix: the parts of the dates were separated by spaces
 whatever the delimiter

---
 nappy/na_file/na_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index d5438d8..a0b4993 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -209,7 +209,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         self.header.write(getAnnotation("SNAME", self.annotation, delimiter = self.delimiter) + stripQuotes(self.SNAME) + "\n")
         self.header.write(getAnnotation("MNAME", self.annotation, delimiter = self.delimiter) + stripQuotes(self.MNAME) + "\n")
         self.header.write(wrapLine("IVOL_NVOL", self.annotation, self.delimiter, "%d%s%d\n" % (self.IVOL, self.delimiter, self.NVOL)))
-        line = "%d %d %d%s%d %d %d\n" % (self.DATE[0], self.DATE[1], self.DATE[2], self.delimiter, self.RDATE[0], self.RDATE[1], self.RDATE[2])
+        line = (self.delimiter.join(["%d"] * 6) + "\n") % (self.DATE[0], self.DATE[1], self.DATE[2], self.RDATE[0], self.RDATE[1], self.RDATE[2])
         self.header.write(wrapLine("DATE_RDATE", self.annotation, self.delimiter, line))
 
     def _readVariablesHeaderSection(self):
-- 
2.43.0


From c68c805816b373af8507b670ac042f311a344e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 21/58] fix: compareNA used the Python 2 builtin apply and
 returned no result

---
 nappy/utils/compare_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..0507ca3 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -63,7 +63,7 @@ def compareNA(i1, i2, **kwargs):
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
         compDirs(i1, i2)
     else:
@@ -251,7 +251,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(*files, **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From 9b4246800462bee19207f036c35d5b84b3f67f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 22/58] fix: comparing NASA Ames files ignored header
 differences and different numbers of lines

---
 nappy/utils/compare_na.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 0507ca3..af417fe 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -189,6 +189,8 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
         print(">>> %s header:" % f1)
         print("<<< %s header:" % f2)
         same = compareSections(header1, header2, number_clever, approx_equal, delimiter_1, delimiter_2) 
+        if len(header1) != len(header2):
+            same = False
         if same:
             print("HEADERS ARE IDENTICAL.")
         if len(header1) != len(header2):
@@ -198,8 +200,11 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
         print("Comparing bodies:")
         print(">>> %s body:" % f1)
         print("<<< %s body:" % f2)
-        same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
-        if same:
+        body_same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
+        if len(body1) != len(body2):
+            body_same = False
+        same = same and body_same
+        if body_same:
             print("BODIES ARE IDENTICAL.")
         if len(body1) != len(body2):
             print("Body lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(body1), f2, len(body2)))
-- 
2.43.0


From 16bb6e4960888d442f220490e5d9f4bb03c38037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 23/58] fix: approximate comparison of NASA Ames files took any
 two numbers as equal

---
 nappy/utils/compare_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index af417fe..a0589d0 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -121,14 +121,14 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
 
                     if a != b:
                         
-                        if approx_equal:
+                        if approx_equal and not isinstance(a, str):
                         # Check to see if testing for approximate equality
                             if a == 0:  a = 0.000000001
                             if b == 0:  b = 0.000000001
                             divided = a/b
                             if divided < 1:
                                 divided = b/a
-                            if (1 - divided) > equality_threshold:
+                            if abs(1 - divided) > equality_threshold:
                                 same = False
                                 break  
                         else: 
-- 
2.43.0


From d6de32792282469604656bc49d0255e237a37eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 24/58] fix: the independent variable of FFI 1020 could not be
 expanded

---
 nappy/na_file/na_file_1020.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..ba12ebf 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -76,11 +76,11 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
+                newX.append(x + (i * self.DX[0]))
 
-        self.X[0] = newX
+        self.X = newX
         self._normalized_X = True
 
     def writeData(self):										
-- 
2.43.0


From c4cf9916ff65b5d9ee12f4a96d87774272c6c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 25/58] fix: a variable sharing its name with a singleton
 variable was lost

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..3ed0534 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -179,7 +179,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for var in rest_of_the_vars:
 
-            if var.name in self.rank_zero_var_ids: continue
+            if len(var.shape) == 0: continue
 
             # What to do with variables that have different number of dimensions or different shape
             if len(var.shape) != number_of_dims or var.shape != shape: 
-- 
2.43.0


From 5c41cd5170e315eaae68c5c83ce360967e70a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 26/58] fix: variables with the same NASA Ames variable number
 were lost, and numbers of 1000 or more failed

---
 nappy/nc_interface/na_content_collector.py | 26 ++++++++--------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 3ed0534..6c266ac 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -246,41 +246,33 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         (vars_for_na, aux_vars_for_na).
         """
         # First do the main variables
-        ordered_vars = [None] * 1000 # Make a long list to put vars in 
+        ordered_vars = []
 
         # Create a list of other variables to collect up any that are not labelled as nasa ames variables
         other_vars = []
         for var in vars_for_na:
             if hasattr(var, "nasa_ames_var_number"):
-                ordered_vars[var.nasa_ames_var_number] = var
+                ordered_vars.append(var)
             else:
                 other_vars.append(var)
 
-        # Remake vars_for_na now in new order and clean out any that are "None"
-        vars_for_na = []
-        for var in ordered_vars:
-            if var is not None: 
-                vars_for_na.append(var)
-
-        vars_for_na = vars_for_na + other_vars
+        # Remake vars_for_na now in new order (the sort keeps variables with the same number)
+        ordered_vars.sort(key=lambda var: var.nasa_ames_var_number)
+        vars_for_na = ordered_vars + other_vars
 
         # Now re-order the Auxiliary variables if they previously came from NASA 
-        ordered_aux_vars = [None] * 1000
+        ordered_aux_vars = []
         other_aux_vars = []
 
         for var in aux_vars_for_na:
             if hasattr(var, "nasa_ames_aux_var_number"):
-                ordered_aux_vars[var.nasa_ames_aux_var_number] = var
+                ordered_aux_vars.append(var)
             else:
                 other_aux_vars.append(var)
 
         # Remake aux_vars_for_na now in order
-        aux_vars_for_na = []
-        for var in ordered_aux_vars:
-            if type(var) != type(None): 
-                aux_vars_for_na.append(var)
-
-        aux_vars_for_na = aux_vars_for_na + other_aux_vars
+        ordered_aux_vars.sort(key=lambda var: var.nasa_ames_aux_var_number)
+        aux_vars_for_na = ordered_aux_vars + other_aux_vars
         return (vars_for_na, aux_vars_for_na)
 
     def _decideFileFormatIndex(self, number_of_dims, aux_vars_for_na, ffis_limited=False):
-- 
2.43.0


From 48aa95a870581d79a1d105213cd668e3f59e7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 27/58] fix: variables on a regularly spaced subset of the
 first axis were lost

---
 nappy/nc_interface/na_content_collector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 6c266ac..14418e5 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -197,9 +197,17 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
 
                         # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
+                        # Only FFI 1020 can hold it (and must be asked for), with one NVPM for all
+                        if nvpm and number_of_dims == 1 and self.requested_ffi == 1020 \
+                                and self.na_dict.get("NVPM", nvpm) == nvpm:
+                            if ffis_limited != [1020]:
+                                # Any found so far are defined at every point
+                                self.unused_vars.extend(aux_vars_for_na)
+                                aux_vars_for_na = []
+
                             ffis_limited = [1020]
                             self.na_dict["NVPM"] = nvpm
+                            aux_vars_for_na.append(var)
                         else: # if returned False, i.e. not regular subset axis
                             self.unused_vars.append(var)
 
-- 
2.43.0


From ebe5f80135a3cb273f238bc581b1bc3d3df5b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 28/58] fix: default output file names were wrong for dots in
 directory names and long extensions

---
 nappy/utils/common_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..745e4ac 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -13,6 +13,7 @@ Functions and classes commonly used in nappy.
 # Standard library imports
 from io import StringIO
 import logging
+import os
 
 # Imports from local package
 from nappy import __version__
@@ -98,12 +99,7 @@ def getFileNameWithNewExtension(input_file, format):
     (i) replacing initial extension if there is one, OR
     (ii) just appending new extension.
     """
-    base_name = input_file
-    last_four = base_name[-4:]
-    found = last_four.find(".")
-    if found > -1:
-        idx = len(base_name) + found
-        base_name = base_name[:idx]
+    base_name = os.path.splitext(input_file)[0]
     return base_name + "." + format
 
 
-- 
2.43.0


From 550dceffb42fae8de3f00c8044d5afce1a706fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 29/58] fix: names of multiple output files were wrong for
 names without extension

---
 nappy/nc_interface/xarray_to_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index efd3f27..acf8e35 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -212,7 +212,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        base_name, extension = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -222,7 +222,7 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
+                new_name = base_name + suffix + extension
                 file_names.append(new_name)
 	    
         return file_names
-- 
2.43.0


From e27bd42761b6118f23116dfc3cf2a1b1dba4b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 30/58] fix: option -l of nc2na and nc2csv was not recognised

---
 nappy/script/nc2csv.py | 2 +-
 nappy/script/nc2na.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..f6ec60e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From 7dd0cdd447802bd006519273de568efac64fc4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 31/58] fix: the nc2csv command wrote spaces instead of commas
 and to a .na file by default

---
 nappy/script/nc2csv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index f6ec60e..a67c34e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -123,8 +123,12 @@ def nc2csv(args=None):
     if args is None:
         args = sys.argv[1:]
 
+    if "-d" in args:
+        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
+
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+    csv_file = arg_dict.pop("na_file")
+    csv_files = nappy.convertNCToCSV(csv_file=csv_file, **arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
@@ -141,8 +145,4 @@ def nc2csv(args=None):
 
 if __name__ == "__main__":
     args = sys.argv[1:]
-    if "-d" in args:
-        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
-
-    args.extend(["-d", ","])
     nc2csv(args)
\ No newline at end of file
-- 
2.43.0


From e35bf87f0e39b76bf581094e2e8f685497803788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 32/58] fix: annotations containing ^ were not removed from
 header and data lines

---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index cc2fb44..335177f 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{^}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From 09ca2d1f6eba4917cc7f94c12392b98d1976501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 33/58] fix: index of format 2010 with one record could not be
 chosen, and 2110 with one point in its first record was taken as 2310

---
 nappy/utils/common_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 745e4ac..f276400 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -69,12 +69,12 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
+        elif len(d["X"][0]) > 1 and type(d["X"][0][1]) == type([1,2]):
+            if all([len(x[1]) == 1 for x in d["X"]]):
+                # 2310 - one indepenent variable changes length but only the first value is specifically stated
+                return 2310
             # 2110 - one independent variable changes length and the values are specified
             return 2110
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) == 1:
-            # 2310 - one indepenent variable changes length but only the first value is specifically stated
-            return 2310
         else:            
             # 2010 - Straightforward 2-D variables
             return 2010
-- 
2.43.0


From e323f47832bfbf84153770cb268cb93d642930cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 34/58] fix: too few lines were taken as fewer items

---
 nappy/utils/text_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 0168474..643ccf6 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -50,6 +50,9 @@ def readItemsFromLines(lines, nitems, rttype=str):
     """
     Reads ``nitems`` items of type ``rttype`` from ``lines``
     """
+    if len(lines) != nitems:
+        raise Exception("Incorrect number of lines (%s) found when reading %s items." % (len(lines), nitems))
+
     lines = [rightStripCurlyBraces(line) for line in lines]
     rtitems = []
     for line in lines:
-- 
2.43.0


From 214830949bf5f38cf4e132bbf9b35f6734179f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 35/58] fix: header lines missing at the end of a file were
 read as empty

---
 nappy/na_file/na_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index a0b4993..7a72d59 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -157,7 +157,10 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if line == "":
+                raise Exception("Reached end of file before finding required number (" + str(nlines) + ") of lines.")
+            lines.append(line.strip())
         return lines
 
     def _checkForBlankLines(self, datalines):
-- 
2.43.0


From e0480a927059a456983e9ef3049a2c7c6a58d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 36/58] fix: two brace groups were removed from items read one
 per line

---
 nappy/utils/text_parser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 643ccf6..f111c74 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -53,7 +53,6 @@ def readItemsFromLines(lines, nitems, rttype=str):
     if len(lines) != nitems:
         raise Exception("Incorrect number of lines (%s) found when reading %s items." % (len(lines), nitems))
 
-    lines = [rightStripCurlyBraces(line) for line in lines]
     rtitems = []
     for line in lines:
         rtitems = rtitems + [readItemFromLine(line, rttype)]
-- 
2.43.0


From 71b70144568ccb636ace75d2c7afa5aa5264ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 37/58] fix: the annotation of a line holding nothing else was
 read as its content

---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index 335177f..676eba0 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.*)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From 3a4f5b1694c780903d22dca9808ac3ff8a564106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 38/58] fix: names could not be split into text and units
 outside of file objects

---
 nappy/na_file/na_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/na_file/na_core.py b/nappy/na_file/na_core.py
index 8a0163c..003eebe 100644
--- a/nappy/na_file/na_core.py
+++ b/nappy/na_file/na_core.py
@@ -41,6 +41,9 @@ class NACore:
         for key in NACore.na_dictionary_keys:
             setattr(self, key, None)
 
+        # Optional function to split variable names into (name, units)
+        self.var_and_units_callback = None
+
         self._var_and_units_pattern = re.compile(r"^\s*(.*)\((.+?)\)(.*)\s*$")
 
 
-- 
2.43.0


From 5e921f10928d9134f4e8b406b3f47074850fa032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 39/58] fix: mode a of the NetCDF writer was ignored and the
 existing file replaced

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..3299cf6 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -106,7 +106,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         self.fix_attrs(ds)
 
         # Write to NetCDF
-        ds.to_netcdf(file_name)
+        ds.to_netcdf(file_name, mode=mode)
 
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
-- 
2.43.0


From 5f827bcb77e436c4ad7ea45d0d455fcb274388bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 40/58] fix: approximate comparison took a number that is not
 one (nan) as equal to any other

---
 nappy/utils/compare_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index a0589d0..0f8fa59 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -128,7 +128,7 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
                             divided = a/b
                             if divided < 1:
                                 divided = b/a
-                            if abs(1 - divided) > equality_threshold:
+                            if not abs(1 - divided) <= equality_threshold:
                                 same = False
                                 break  
                         else: 
-- 
2.43.0


From ef9145a6f2c71cedc9b6c89e1e4a1f22bebe399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 41/58] fix: lines holding the same nan in other spacing were
 reported as different

---
 nappy/utils/compare_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 0f8fa59..db864d2 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -119,7 +119,7 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
                         a = items1[count]
                         b = items2[count]
 
-                    if a != b:
+                    if a != b and items1[count] != items2[count]:
                         
                         if approx_equal and not isinstance(a, str):
                         # Check to see if testing for approximate equality
-- 
2.43.0


From ae6b836568a3079213a034881e67aa94f7d4aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:11 +0000
Subject: [PATCH 42/58] fix: write data with a one-point second axis to FFI
 2310

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 14418e5..b4e59e5 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -423,7 +423,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_nx = []
                     new_dx = []
                     ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
-                    incr = xarray_utils.get_interval(ax2_values, 0, 1)
+                    incr = xarray_utils.get_interval(ax2_values, 0, 1) if len(ax2_values) > 1 else 0
 
                     for i in self.ax0[:]:
                         new_x.append([i, ax2_values])
-- 
2.43.0


From 3a9c13b261cb7f4e9c0d4e6a65dbd304c93ba5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:11 +0000
Subject: [PATCH 43/58] fix: define an axis by its values as written: times as
 numbers, no wrapping of unsigned intervals

---
 nappy/nc_interface/na_content_collector.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index b4e59e5..7b4e093 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -371,13 +371,13 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     self.na_dict["DX"] = [0]
                 else:
                     # Set default increment as gap between first two
-                    incr = xarray_utils.get_interval(self.ax0, 0, 1)
+                    incr = xarray_utils.get_interval(self.na_dict["X"][0], 0, 1)
 
                     self.na_dict["DX"] = [incr]
                     # Now overwrite it as zero if non-uniform interval in axis
 
                     for i in range(1, len(self.ax0)):
-                        if xarray_utils.get_interval(self.ax0, i-1, i) != incr:
+                        if xarray_utils.get_interval(self.na_dict["X"][0], i-1, i) != incr:
                             self.na_dict["DX"] = [0]
                             break
 
@@ -482,6 +482,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         NASA Ames). It appends to the various self.na_dict containers.
         """
         length = len(axis)
+        values = xarray_utils.getArrayAsList(axis)
 
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
@@ -490,16 +491,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = xarray_utils.get_interval(values, 0, 1)
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if xarray_utils.get_interval(values, i-1, i) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -509,7 +510,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From 594cc520b658aaad43ea31e80b909a8c0634da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:11 +0000
Subject: [PATCH 44/58] fix: refuse FFI 1020 for an unevenly spaced axis, which
 its increment cannot restore

---
 nappy/nc_interface/na_content_collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 7b4e093..edc34f5 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -387,6 +387,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 # If FFI is 1020 need to reduce axis down to reduced values as most are implied
                 if self.na_dict["FFI"] == 1020: 
+                    if self.na_dict["NVPM"] > 1 and self.na_dict["DX"] == [0]:
+                        raise Exception("Cannot write this data to FFI '1020', its axis is not evenly spaced.")
                     vals = self.na_dict["X"]
                     self.na_dict["X"] = vals[0:len(vals):self.na_dict["NVPM"]] 
 
-- 
2.43.0


From 581e596dcb0603d25f415eb381a274354d670508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:11 +0000
Subject: [PATCH 45/58] fix: write times of FFI 2110 and 2310 data as numbers

---
 nappy/nc_interface/na_content_collector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index edc34f5..ac91e5c 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -401,9 +401,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -424,10 +424,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
                     incr = xarray_utils.get_interval(ax2_values, 0, 1) if len(ax2_values) > 1 else 0
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
-- 
2.43.0


From c90f26e691146cc249051502e87fbd6a36309738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 46/58] fix: keep the format index of the content built when
 the source file's is among the attributes

---
 nappy/nc_interface/na_content_collector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index ac91e5c..ea734f0 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -606,6 +606,11 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
+
+                elif local_nc_to_na_map[key] in ("FFI", "NLHEAD"):
+                    # These describe the source file, not the content being defined
+                    continue
+
                 else:
                     self.na_dict[local_nc_to_na_map[key]] = value
             else:
-- 
2.43.0


From 265b8f58f94525c74c643e006cb01798b234eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 47/58] fix: use the attribute's own name for a locally set
 attribute mapping

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index ea734f0..c350d74 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -525,7 +525,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for att, value in local_nc_atts.items():
             if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
-- 
2.43.0


From a24c97d52cfbd074a0cc5eb14dcdf9b9b8bc354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 48/58] fix: accept overriding header items as text or as lists

---
 nappy/nc_interface/xarray_to_na.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index acf8e35..c0150c4 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -275,11 +275,17 @@ class XarrayToNA:
 
                 if key in permitted_overwrite_metadata:    
                     if key in items_as_lists:
-                        new_item = overriders[key].split()		   
+                        new_item = overriders[key]
+                        if isinstance(new_item, str):
+                            new_item = new_item.split()
                         if key in ("DATE", "RDATE"):
                             new_item = [int(list_item) for list_item in new_item]
+                        if key in ("VNAME", "ANAME") and len(new_item) != len(this_na_dict[key]):
+                            raise Exception(f"Cannot overwrite '{key}': {len(this_na_dict[key])} names expected.")
                     else:
                         new_item = overriders[key]
+                        if key in ("SCOM", "NCOM") and isinstance(new_item, str):
+                            new_item = new_item.split("\n")
 
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
-- 
2.43.0


From 4f6191143f380b3aec39f37d6735a81b5e8b8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:32 +0000
Subject: [PATCH 49/58] fix: missing values keep the missing value when a NASA
 Ames file is converted to xarray

---
 nappy/nc_interface/na_to_xarray.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..e1694eb 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -258,11 +258,12 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
+        # Missing values are not scaled
+        array = np.where(array == miss, array, array * scal)
+
         if miss:
             array = np.ma.masked_array(array, fill_value=miss)
 
-        array = array * scal
-
         # Set up axes
         if not hasattr(self, 'xr_axes'):
             self._convertXarrayAxes()
@@ -327,11 +328,13 @@ class NADictToXarrayObjects:
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
         array = np.array(self.na_file_obj.A[avar_number])
+
+        # Missing values are not scaled
+        array = np.where(array == miss, array, array * scal)
+
         if miss:
             array = np.ma.masked_array(array, fill_value=miss)
 
-        array = array * scal
-
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
         self.output_message.append(msg)
-- 
2.43.0


From 2f1f8c8fa36140f6cbc002a3587bbe272ed2bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 50/58] fix: global attributes given by the user are kept when
 converting to xarray

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index e1694eb..1c4d71a 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -204,7 +204,7 @@ class NADictToXarrayObjects:
         new_atts = []
 
         for key, value in self.global_attributes:
-            new_atts.append( (key, glob_atts[key]) )
+            new_atts.append( (key, value) )
 
         used_keys = [i[0] for i in new_atts]
 
-- 
2.43.0


From 332181920a99de6cc7a596dd688aae60109b4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 51/58] fix: variables can be selected by a name that starts
 with a digit

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 1c4d71a..3a45c2c 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -226,7 +226,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            if isinstance(self.variables[0], int) or re.match(r"\d+$", str(self.variables[0])):
 
                 for var_number in self.variables:
                     vn = int(var_number)
-- 
2.43.0


From 7fe896e4177056fddf696d77d2a46cefa234a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 52/58] fix: unknown auxiliary variable names are refused like
 unknown variable names

---
 nappy/nc_interface/na_to_xarray.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 3a45c2c..f48a864 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -304,10 +304,11 @@ class NADictToXarrayObjects:
                 self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
 
         else:
-            if type(self.aux_variables[0]) == type(1): # They are integers = indices
+            # If integers or numbers: then use as indices for selecting variables
+            if isinstance(self.aux_variables[0], int) or re.match(r"\d+$", str(self.aux_variables[0])):
 
                 for avar_number in self.aux_variables:
-                    self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))   
+                    self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(int(avar_number)))
 
             elif type(self.aux_variables[0]) == type("string"): # They are strings
 
@@ -316,8 +317,8 @@ class NADictToXarrayObjects:
                     if avar_name in self.na_file_obj.ANAME:
                         avar_number = self.na_file_obj.ANAME.index(avar_name)
                         self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                    else:
+                        raise Exception(f"Auxiliary variable name not known: {avar_name}")
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From b54873c9c186f38ade5d9c0c72aef6948bad4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 53/58] fix: auxiliary variables of FFI 1020 files go on every
 NVPM-th point of the axis

---
 nappy/nc_interface/na_to_xarray.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index f48a864..bfa19b7 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -344,8 +344,13 @@ class NADictToXarrayObjects:
         if not hasattr(self, 'xr_axes'):
             self._convertXarrayAxes()
 
+        # Auxiliary variables are given once for every NVPM points of the axis (FFI 1020)
+        axis = self.xr_axes[0]
+        if self.na_file_obj.FFI == 1020:
+            axis = axis[::self.na_file_obj.NVPM]
+
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=[axis],
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
-- 
2.43.0


From 1349e20d081d633e7c98550f8a4da59797faaf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 54/58] fix: variables of the same name are all written to the
 NetCDF file

---
 nappy/nc_interface/na_to_nc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 3299cf6..7bbc5c8 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -100,8 +100,19 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         # Fix integers in attributes
         [self.fix_attrs(v) for v in combined_var_list]
 
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
+        # Create the Datset: each variable needs a name of its own
+        dims = {dim for da in combined_var_list for dim in da.dims}
+        variables = {}
+
+        for da in combined_var_list:
+            name, count = da.name, 1
+
+            while name in variables or name in dims:
+                count += 1
+                name = f"{da.name}_{count}"
+
+            variables[name] = da
+
         ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
-- 
2.43.0


From 181376601cb54ac77e462ec663456f650964927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 55/58] fix: message when a format has no mapping to xarray

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index bfa19b7..2fef8ea 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -89,7 +89,7 @@ class NADictToXarrayObjects:
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
             raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
+                             str(self.na_file_obj.FFI) + 
                              " to Xarray objects. No mapping implemented yet."))
 
         self.output_message = []  # for output displaying message
-- 
2.43.0


From 6625e4984e985f424c9a6a879af1fc9ee9a58576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 56/58] fix: auxiliary variables with long names can be renamed
 like variables

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 2fef8ea..498cf72 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -363,8 +363,8 @@ class NADictToXarrayObjects:
             var_name = f"naAuxVariable_{avar_number}"
 
         # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+        if var_name.lower() in self.rename_variables.keys():
+            var_name = self.rename_variables[var_name.lower()]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
-- 
2.43.0


From 62fdb5aa5430f647954a22098edc6dc5f2b2c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 57/58] fix: reading the data again gives the same axis (2010,
 3010, 4010; 1020 after its axis was expanded)

---
 nappy/na_file/na_file_1020.py | 7 +++++++
 nappy/na_file/na_file_2010.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index ba12ebf..88ebe51 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -69,6 +69,13 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
                 count = count + 1
         return rtlines
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_1010.NAFile1010._setupArrays(self)
+        self._normalized_X = False
+
     def _normalizeIndVars(self):
         """
         Normalizes the values in the unbounded independent variable for FFIs
diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 0a0c949..f0c6edc 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -90,6 +90,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         Sets up FFI-specific arrays to fill with data (lists of lists).
         """
+        self.X[0] = []
         self.V = []
         self.A = []
 
-- 
2.43.0


From 7296dc3a831ea2203c8968d75e6962cdff00aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:53 +0000
Subject: [PATCH 58/58] fix: empty text attributes stay text when written to
 NetCDF

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 7bbc5c8..3303802 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -73,7 +73,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
 
         value = dct.get(key)
 
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
             dct[key] = [to_np_int(v) for v in value]
         elif isinstance(value, int):
             dct[key] = to_np_int(value)
-- 
2.43.0

