From 3ef818bd20c03f88fafe75feb9e18afbb2aa722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 01/89] fix: make repeated calls of a kinematic Converter
 return the same values

---
 rsbeams/rsstats/kinematic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..33649c3 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -133,11 +133,16 @@ class Converter:
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev / ev_per_kg
+        # Each call starts over from these entries
+        self._initial_outputs = self.outputs
 
     def __call__(self, *args, silent=False, **kwargs):
         """Run kinematic conversion.
         silent (bool): If True then suppress printout and just return values in dict.
         """
+        # Do not reuse results of a previous call
+        self.outputs = self._initial_outputs.copy()
+
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-- 
2.43.0


From 863224b2dde785df0104e74f5f50ef5caba2e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 02/89] fix: report converter mass and input in the unit they
 are labelled with

---
 rsbeams/rsstats/kinematic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 33649c3..16d3c6d 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -83,6 +83,9 @@ class Converter:
                     declaration += 1
             assert declaration == 1, "One and only one initial kinematic quantity must be provided"
 
+        # Input value and mass are reported as the user gave them
+        self._given = self.args.copy()
+
         # Convert to eV for internal use
         if self.args['input_unit'] == 'SI':
             self._unit_convert(input_unit='SI', input_dict=self.args)
@@ -121,7 +124,7 @@ class Converter:
             if self.args['mass']:
                 self.mass = self.args['mass'] * (
                             1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self._given['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
@@ -129,7 +132,7 @@ class Converter:
             if self.args['mass'] is not None:
                 self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
                             self.args['input_unit'] == 'eV'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self._given['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev / ev_per_kg
@@ -146,7 +149,7 @@ class Converter:
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
+                self.outputs["input"] = self._given[key]
                 self.outputs["input_type"] = key
                 self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
 
@@ -184,6 +187,8 @@ class Converter:
         """
         if self.args['output_unit'] == 'SI':
             self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            # Mass is labelled with (and stays in) the unit it was given in
+            self.outputs["mass"] = self._initial_outputs["mass"]
 
         if not silent:
             print(print_string.format(**self.outputs))
-- 
2.43.0


From c4c6596b6fd0d7d8183a95b03878c2711917bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 03/89] fix: raise instead of looping forever on a truncated
 SDDS header

---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..3fa1417 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -22,6 +22,8 @@ def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if not line:
+            raise EOFError("File ended before the SDDS header was complete")
     return line
 
 
-- 
2.43.0


From 6d6af443a6d06edc9fa96911f9071c5d1f46543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 04/89] fix: parse numeric SDDS header fields as numbers

---
 rsbeams/rsdata/datatypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..ed680fa 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -58,7 +58,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["double", "float"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
@@ -81,6 +81,7 @@ class Column(Datum):
             "field_length": 0,
         }
         super().__init__(namelist)
+        self.fields["field_length"] = int(self.fields["field_length"])
         self.set_data_type()
 
     def set_data_type(self):
@@ -117,6 +118,8 @@ class Data(Datum):
             "additional_header_lines": 0,
         }
         super().__init__(namelist)
+        for name in ["lines_per_row", "no_row_counts", "additional_header_lines"]:
+            self.fields[name] = int(self.fields[name])
 
 
 class Associate(Datum):
-- 
2.43.0


From f8b2dc2fec736e41caeaafab13bc78834566b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 05/89] fix: read SDDS files that declare no parameters

---
 rsbeams/rsdata/SDDS.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..c4c2018 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -247,10 +247,6 @@ class readSDDS:
         elif not self.data['&data'][0].fields['no_row_counts'] and len(self.data['&column']) > 0:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
-        else:
-            if len(self._parameter_keys[0]) == 0:
-                # Need empty checks to succeed
-                self._parameter_keys.pop(0)
 
     def _get_reader(self):
         if self._data_mode == 'ascii':
@@ -377,7 +373,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            if self._parameters and (page in user_pages):
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
-- 
2.43.0


From f1181eedd7db7a732a7498a2c293705e58fb1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 06/89] fix: detect the end of unbuffered SDDS data from the
 data that is left

---
 rsbeams/rsdata/SDDS.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index c4c2018..47aa744 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -282,19 +282,18 @@ class readSDDS:
             if len(self.openf) <= position:
                 return True
         else:
-            # Usually will catch binary end
             pointer = self.openf.tell()
-
-            if not self.openf.read(1):
-                return True
-            while True:
-                line = self.openf.readline()
-                if not line.strip():
-                    return True
-                else:
-                    break
-
+            if self._data_mode == 'binary':
+                remaining = self.openf.read(1)
+            else:
+                # Trailing blank lines do not start another page
+                remaining = b''
+                for line in iter(self.openf.readline, b''):
+                    remaining = line.strip()
+                    if remaining:
+                        break
             self.openf.seek(pointer)
+            return not remaining
 
         return False
 
-- 
2.43.0


From cfd08f59148828757d7276fbd6b04b8572b99a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 07/89] fix: advance by the rows read in buffered ASCII SDDS
 pages

---
 rsbeams/rsdata/SDDS.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 47aa744..775b7af 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -302,10 +302,11 @@ class readSDDS:
         if self.buffer:
             # openf is a list
             for line in self.openf[start_position:]:
-                if not line:
+                if not line.strip():
                     return line_count
                 else:
                     line_count += 1
+            return line_count
         else:
             start_position = self.openf.tell()
             while True:
@@ -313,7 +314,7 @@ class readSDDS:
                 if not line.strip():
                     self.openf.seek(start_position)
                     return line_count
-                else:
+                elif line.lstrip().find(b'!') != 0:
                     line_count += 1
 
     def read(self, pages=None):
@@ -450,7 +451,10 @@ class readSDDS:
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
                                                comments='!', deletechars='')
                 if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
+                    position += row_count
+                    if self.data['&data'][0].fields['no_row_counts']:
+                        # Blank line that ends the page
+                        position += 1
             else:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
                 if self.buffer:
-- 
2.43.0


From 6ada99b1752e3b2cb4fcf3c18d39e88ae685e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 08/89] fix: locate buffered ASCII SDDS data independently of
 blank header lines

---
 rsbeams/rsdata/SDDS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 775b7af..d056383 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -174,7 +174,8 @@ class readSDDS:
             self._data_mode = 'ascii'
             # need list of lines to use genfromtxt
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                self.openf = [line for line in self.openf[self.header_end_pointer:].splitlines()
+                              if line.lstrip().find(b'!') != 0]
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
@@ -348,7 +349,8 @@ class readSDDS:
         if self._data_mode == 'binary':
             position = 0 + self.header_end_pointer * self.buffer
         else:
-            position = 0 + self._header_line_count * self.buffer
+            # Header lines are not part of the ASCII buffer
+            position = 0
 
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
-- 
2.43.0


From 4808835284c91e0144da5e332d8741f34f24c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 09/89] fix: keep SDDS page selection consistent for skipped
 pages

---
 rsbeams/rsdata/SDDS.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index d056383..30f6680 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -2,7 +2,6 @@ from future.builtins import str
 import numpy as np
 from struct import pack
 from sys import byteorder
-from types import GeneratorType
 from rsbeams.rsdata import utils
 from .datatypes import supported_namelists
 from .struct_data import StructData
@@ -339,10 +338,7 @@ class readSDDS:
         # Select pages to be stored during the read - if None then store everything
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
-        if pages is not None:
-            user_pages = pages
-        else:
-            user_pages = utils.iter_always()
+        user_pages = pages
         pages = utils.iter_always()
 
         # Buffer reading has no pointer, you always start at the beginning so we need to move the start offset
@@ -359,15 +355,15 @@ class readSDDS:
                 break
 
         for page in pages:
-            if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
-                print(page, user_pages)
+            if user_pages is not None and page > np.max(user_pages):
                 if self.verbose:
                     print('stopping here')
                 break
 
+            selected = user_pages is None or page in user_pages
             if self._check_file_end(position):
                 # TODO: Get the logic right here. Should not trigger unless user requests a bad page.
-                if page in user_pages:
+                if selected:
                     if self.verbose:
                         print('Could not read page {}'.format(page))
                 break
@@ -375,7 +371,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if self._parameters and (page in user_pages):
+            if self._parameters and selected:
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
@@ -387,12 +383,17 @@ class readSDDS:
 
             if row_count == 0:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
+            if selected or self._variable_length_records or self._data_mode == 'ascii':
                 column_data, position = self._get_column_data(self._column_keys, position, row_count)
-                self._columns.add(column_data)
+                if selected:
+                    self._columns.add(column_data)
             else:
                 # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
+                skipped = np.dtype(self._column_keys[0]).itemsize * row_count
+                if self.buffer:
+                    position += skipped
+                else:
+                    self.openf.seek(skipped, 1)
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From 9f564de2c6351cc45f363f9fdba72abdd50c9979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 10/89] fix: read SDDS files whose pages differ in number of
 rows

---
 rsbeams/rsdata/struct_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..27900ce 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -42,7 +42,13 @@ class StructData:
         self._data.append(data_hold)
 
     def concat(self):
-        self.data = np.array(self._data)
+        if len({np.shape(page) for page in self._data}) > 1:
+            # Pages with a different number of rows are kept as separate arrays
+            self.data = np.empty(len(self._data), dtype=object)
+            for i, page in enumerate(self._data):
+                self.data[i] = np.atleast_1d(page)
+        else:
+            self.data = np.array(self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-- 
2.43.0


From 62796ee03b6041fe46139da5c2f70dad73f03f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 11/89] fix: ignore blank lines at the end of buffered ASCII
 SDDS data

---
 rsbeams/rsdata/SDDS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 30f6680..0d6b595 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -278,7 +278,10 @@ class readSDDS:
         return position
 
     def _check_file_end(self, position):
-        if self.buffer:
+        if self.buffer and self._data_mode == 'ascii':
+            # Trailing blank lines do not start another page
+            return not any(self.openf[i].strip() for i in range(position, len(self.openf)))
+        elif self.buffer:
             if len(self.openf) <= position:
                 return True
         else:
-- 
2.43.0


From 9afdfbca9b146b06c5b2f0be2f41b16d974b7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 12/89] fix: step over the page separator in unbuffered ASCII
 SDDS data without row counts

---
 rsbeams/rsdata/SDDS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0d6b595..8df631c 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -314,7 +314,10 @@ class readSDDS:
             start_position = self.openf.tell()
             while True:
                 line = self.openf.readline()
-                if not line.strip():
+                if line and not line.strip() and line_count == 0:
+                    # Blank line that ended the previous page
+                    continue
+                elif not line.strip():
                     self.openf.seek(start_position)
                     return line_count
                 elif line.lstrip().find(b'!') != 0:
-- 
2.43.0


From 7f81e714930198be8448966783a7d528b7e3d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 13/89] fix: do not touch the target file when an SDDS save is
 refused

---
 rsbeams/rsdata/SDDS.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8df631c..b7daa9b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -669,20 +669,20 @@ class writeSDDS:
         """
 
         self.dataMode = dataMode
-        outputFile = open(fileName, 'wb')
 
-        # Verify Column Data Integrity
+        # Verify Column Data Integrity before an existing file is overwritten
+        if len({len(columns['colData']) for columns in self.columns}) > 1:
+            print('ERROR: All columns on a page must have same length')
+            return
         if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
-                print('ERROR: All columns on a page must have same length')
-                return
+            column_data = np.column_stack([columns['colData'] for columns in self.columns])
         elif len(self.columns) == 1:
             column_data = self.columns[0]['colData']
         else:
             column_data = np.empty([0])
 
+        outputFile = open(fileName, 'wb')
+
         # Begin header writeout
         self._write_header(outputFile)
 
-- 
2.43.0


From 113a2641bab07f345e66509404cd70021bc24544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 14/89] fix: write SDDS columns with the type they are declared
 with

---
 rsbeams/rsdata/SDDS.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index b7daa9b..2593ca3 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -537,7 +537,8 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
+    ascii_format = {'double': '%.18e', 'short': '%d', 'long': '%d', 'string': '%s'}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
@@ -655,6 +656,12 @@ class writeSDDS:
 
         outputFile.write('&data mode={}, &end\n'.format(self.dataMode).encode())
 
+    @staticmethod
+    def _column_dtype(column):
+        if column['colType'] == 'string':
+            return np.asarray(column['colData']).dtype
+        return utils.data_types[column['colType']]
+
     def save_sdds(self, fileName, dataMode='ascii'):
         """
         Saves the parameters and columns to file. Parameters and columns are written to the file in the order
@@ -674,10 +681,11 @@ class writeSDDS:
         if len({len(columns['colData']) for columns in self.columns}) > 1:
             print('ERROR: All columns on a page must have same length')
             return
-        if len(self.columns) > 1:
-            column_data = np.column_stack([columns['colData'] for columns in self.columns])
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
+        if self.columns:
+            column_data = np.empty(len(self.columns[0]['colData']),
+                                   dtype=[('', self._column_dtype(columns)) for columns in self.columns])
+            for name, columns in zip(column_data.dtype.names, self.columns):
+                column_data[name] = columns['colData']
         else:
             column_data = np.empty([0])
 
@@ -710,7 +718,7 @@ class writeSDDS:
 
         # Write Columns
         if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
+            np.savetxt(outputFile, column_data, fmt=[self.ascii_format[columns['colType']] for columns in self.columns] or '%.18e')
         elif self.dataMode == 'binary':
             column_data.tofile(outputFile)
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-- 
2.43.0


From 51c34620ac303df29c0876a8b5097682b4f69882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 15/89] fix: write the row count of ASCII SDDS files without
 rows

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 2593ca3..410ae22 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -712,8 +712,8 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if column_data.shape[0]:
+            # Should not appear in ascii if there are no columns
+            if self.columns:
                 outputFile.write('{}\n'.format(column_data.shape[0]).encode())
 
         # Write Columns
-- 
2.43.0


From dfe1524f32f0fe55177de6ad528734e9fcd3ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 16/89] fix: write SDDS fixed values that are zero

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 410ae22..aae3c96 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -617,7 +617,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -638,7 +638,7 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                if (key in parameterAttributeStr.keys()) and value not in ('', None):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
-- 
2.43.0


From 45eab02d67404a906c968967d006ff24e6c4347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 17/89] fix: read step 0 of an OPAL file when it is asked for

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..ff4988b 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -69,7 +69,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
-- 
2.43.0


From e69abb16a7e608ce198d0338a7f90242881b2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 18/89] fix: accept a total charge of zero in OPAL files

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index ff4988b..62f4379 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -86,7 +86,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = pcdata[loc].attrs.get('TotalCharge', pcdata[loc].attrs.get('CHARGE'))
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From 512a83952991b49f74ee96d5716e73ace236a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 19/89] fix: read elegant files with a single particle

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 62f4379..19aacf2 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = read_particle_data.columns.reshape(-1)
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-- 
2.43.0


From ce8ed370e2274d84ee17767535e1e00245c58eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 20/89] fix: write the first registered species by default, as
 documented

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 19aacf2..172ff3f 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -289,7 +289,7 @@ class Switchyard:
         """.format(sn=_DEFAULT_SPECIES_NAME)
 
         if not species_name:
-            species_name = _DEFAULT_SPECIES_NAME
+            species_name = next(iter(self.species), _DEFAULT_SPECIES_NAME)
 
         self._writers[code](filename, species_name, **kwargs)
 
-- 
2.43.0


From fe1ae64299eef41b53496f2f923594e091fd7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 21/89] fix: total charge of OPAL files is a number, not an
 array

---
 rsbeams/rsdata/switchyard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 172ff3f..bc1700d 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -88,6 +88,8 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
         total_charge = pcdata[loc].attrs.get('TotalCharge', pcdata[loc].attrs.get('CHARGE'))
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
+        # H5hut stores attributes as arrays with a single element
+        total_charge = np.squeeze(total_charge)
 
     # TODO: This shouldn't be specific to electrons
     species = Species(particle_data, charge=-1, mass=0.511e6, total_charge=total_charge)
-- 
2.43.0


From 3d204ec5b456e0c3c967ff733c79ce2367456d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 22/89] fix: save and load beamlines with the yaml interface
 that still exists

---
 rsbeams/rslattice/Beamline.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..bb3f080 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -127,18 +127,17 @@ class StructuredBeamline(object):
 
         beamline = return_elements(self)
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            writer = yaml.YAML(typ="safe", pure=True)
+            writer.default_flow_style = False
+            writer.sort_base_mapping_type_on_output = False
+            writer.dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = yaml.YAML(typ="safe", pure=True).load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
-- 
2.43.0


From 8b5b9385c84071c71ed2190dae3f4ec32144818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 23/89] fix: load every subline of a saved beamline as a line
 of its own, at its own level

---
 rsbeams/rslattice/Beamline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index bb3f080..9ab67ed 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -152,8 +152,11 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    # names of sublines are not stored but each one is a line of its own
+                    beamline.add_beamline(
+                        name="{}_{}".format(beamline.name, len(beamline.lines) + 1)
+                    )
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From dd35d2e0c42b93a9d480ce8d790aa45cce3f2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 24/89] fix: save beamlines whose parameters are numpy numbers

---
 rsbeams/rslattice/Beamline.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 9ab67ed..17635e9 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -119,7 +119,15 @@ class StructuredBeamline(object):
             for ele in line.sequence:
                 if isinstance(ele, Element):
                     the_beamline.append(
-                        {"name": ele.name, **ele.parameters, "type": ele.type}
+                        {
+                            "name": ele.name,
+                            # numpy scalars cannot be represented in YAML
+                            **{
+                                k: v.item() if hasattr(v, "item") else v
+                                for k, v in ele.parameters.items()
+                            },
+                            "type": ele.type,
+                        }
                     )
                 else:
                     the_beamline.append(return_elements(ele))
-- 
2.43.0


From 1590d39712a65b04af41d222d063a01b62fa97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 25/89] fix: every way to access an element parameter ignores
 case

---
 rsbeams/rslattice/Element.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..86acba0 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -58,6 +58,29 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __delitem__(self, key):
+        dict.__delitem__(self, self._agnostic(key))
+
+    def __contains__(self, key):
+        return dict.__contains__(self, self._agnostic(key))
+
+    def get(self, key, default=None):
+        return dict.get(self, self._agnostic(key), default)
+
+    def pop(self, key, *args):
+        return dict.pop(self, self._agnostic(key), *args)
+
+    def setdefault(self, key, default=None):
+        return dict.setdefault(self, self._agnostic(key), default)
+
+    def update(self, *args, **kwargs):
+        for key, val in dict(*args, **kwargs).items():
+            self[key] = val
+
+    @staticmethod
+    def _agnostic(key):
+        return key.lower() if type(key) == str else key
+
 
 class Element(object):
     """
-- 
2.43.0


From 0b225ea87651ef459db0b1250f576f96956cd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 26/89] fix: use the parameters of all elements of the line in
 the transfer matrix

---
 rsbeams/rslattice/Beamline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 17635e9..0a71913 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -246,11 +246,12 @@ class StructuredBeamline(object):
     def generate_matrix(self, concatenate=True):
         elements = []
         variables = {}
-        for ele in self.sequence:
+        for ele in self.get_beamline_elements():
             elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
+                key = key.upper()  # parameter names are stored in lower case
                 if type(val) == str:
                     variables[val] = symbols(val)
                     elements[-1] = elements[-1].subs(key, val)
-- 
2.43.0


From db2268da660df5b8eb41a1872f7f9413e2ea608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 27/89] fix: the transfer matrix of a line without elements is
 the identity

---
 rsbeams/rslattice/Beamline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 0a71913..1ee4f3f 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -8,7 +8,7 @@ from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
 from sympy import symbols, cosh, sinh, sqrt, lambdify
-from sympy.matrices import Matrix
+from sympy.matrices import Matrix, eye
 from ruamel import yaml
 from collections import UserList
 
@@ -259,8 +259,8 @@ class StructuredBeamline(object):
                     elements[-1] = elements[-1].subs(key, val)
 
         if concatenate:
-            matrix = elements[-1]
-            for ele in elements[-2::-1]:
+            matrix = eye(4)
+            for ele in elements[::-1]:
                 matrix *= ele
             elements = matrix
 
-- 
2.43.0


From ff861df2d653f3ad26ebffed05f9594d0bbcbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 28/89] fix: a quadrupole of zero strength has the transfer
 matrix of a drift

---
 rsbeams/rslattice/Beamline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 1ee4f3f..790e8c0 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -247,7 +247,11 @@ class StructuredBeamline(object):
         elements = []
         variables = {}
         for ele in self.get_beamline_elements():
-            elements.append(self.matrices[ele.type])
+            if ele.type == "quadrupole" and ele.parameters.get("K1") == 0:
+                # the matrix of a quadrupole is singular at zero strength, where it is a drift
+                elements.append(self.matrices["drift"])
+            else:
+                elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
-- 
2.43.0


From a0481f36d57eef168c559263c863f1657b4413a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 29/89] fix: accept a comment on the last line of an lte file

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..c04a1a7 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -283,6 +283,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From 019d93415976c9c93c469f5a431a61c5765ae235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 30/89] fix: expand lte lines with repeated sublines, nested
 groups, quotes and white space

---
 rsbeams/rslattice/lte_parser.py | 161 +++++++++-----------------------
 1 file changed, 46 insertions(+), 115 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c04a1a7..ae8326a 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -8,8 +8,8 @@ Translate element types to OPAL from elegant syntax.
 # TODO: Add a beamline length parameter
 # TODO: Add a copy function
 
+import re
 import numpy as np
-digits = '0123456789'
 
 """
 Notes on sanitizing input file and element search assumptions:
@@ -43,7 +43,6 @@ class BeamlineParser(object):
         self.filename = filename
         self.beamline_name = beamline_name.lower()
         self.beamline = StructuredBeamline(beamline_name)  # Holds StructuredBeamline object
-        self.beamline_string = ''
         self.lines = {}
         self.rpn_variables = {}
 
@@ -72,7 +71,7 @@ class BeamlineParser(object):
         :param beamline_name:
         :return:
         """
-        self.beamline_name = beamline_name
+        self.beamline_name = beamline_name.lower()
 
     def find_beamlines(self):
         """
@@ -83,15 +82,11 @@ class BeamlineParser(object):
             return "Set Beamline"
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
-            if self.lattice_definition[linenumber].find('line=(') > -1:
+            if re.search(r':\s*line\s*=\s*\(', self.lattice_definition[linenumber]):
                 def_start = self.lattice_definition[linenumber].find('=') + 1
                 self.lines[self._read_name(self.lattice_definition[linenumber])] = \
                     self.lattice_definition[linenumber][def_start:]
 
-                if self._read_name(self.lattice_definition[linenumber]) == self.beamline_name:
-                    def_start = self.lattice_definition[linenumber].find('=') + 1
-                    self.beamline_string = self.lattice_definition[linenumber][def_start:]
-
                 self.lattice_definition.pop(linenumber)
 
     def parse_set_beamline(self):
@@ -102,133 +97,69 @@ class BeamlineParser(object):
         """
         assert self.beamline_name in self.lines, "The requested beamline is not found"
 
-        beamline_string = self.beamline_string[1:]  # Consume opening '('
-        coefficient = ''
-        lines_list = []  # Holds beamline definitions if recursion is necessary
-        flag_subline = False  # Set if recursion begins
+        self._add_line(self.beamline, self.beamline_name)
 
+    def _add_line(self, beamline, line_name):
         """
-        Order of operations for parsing:
-            - Determine if element is repeated
-            - If Yes, then expand element and replace with explicit list
-            - Find element name
-            - Determine if element is another beamline or a single element
-            - If beamline, then store current beamline and restart
-            - If a single element, then find element definition in file
-            - Extract element parameters
-            - Remove element name from front of string
-            - Check if string is empty
-            - If current beamline string not empty then restart process
-            - If empty check if an beamlines exist in storage
-            - If beamline then set it as active and restart
-            - If no beamline exists in storage and current is empty then exit
+        Adds everything in the definition of a line to a StructuredBeamline. Lines found in it become sublines.
+        :param beamline: (StructuredBeamline)
+        :param line_name: (str) Name of a line found in the file
+        :return:
         """
-
-        while beamline_string.strip():
-            # Check for leading coefficient on element
-            while beamline_string[0] in digits:
-                coefficient += beamline_string[0]
-                beamline_string = beamline_string[1:]
-            # All digits of coefficient will be consumed
-
-            if coefficient:
-                beamline_string = self._expand_line(beamline_string, int(coefficient))
-                coefficient = ''
-            if beamline_string.find(',') > -1:
-                next_element_end = beamline_string.find(',')
-            elif beamline_string.find(')') > -1:
-                next_element_end = beamline_string.find(')')
-
-            element_name = beamline_string[:next_element_end].strip()
-            # If element is a line definition then start recursion process
-            if element_name in self.lines:
-                print("Starting on line:", element_name)
-                if beamline_string.find(',') > -1:
-                    beamline_string = beamline_string[
-                                      beamline_string.find(',') + 1:]  # Consume element name and ','
-                elif beamline_string.find(')') > -1:
-                    beamline_string = beamline_string[
-                                      beamline_string.find(')') + 1:]  # Consume element name and ')'
-                if beamline_string.strip():
-                    lines_list.append(beamline_string)
-
-                # Set beamline_string to be new beamline
-                beamline_string = self.lines[element_name]
-                beamline_string = beamline_string[1:]  # Consume opening '('
-                self.beamline.add_beamline(name=element_name)
-                flag_subline = True
+        for name in self._expand_line(self.lines[line_name]):
+            if name in self.lines:
+                print("Starting on line:", name)
+                existing = name in beamline.lines
+                beamline.add_beamline(name=name)
+                if not existing:
+                    self._add_line(beamline.sequence[-1], name)
                 continue
 
-            # Strip out quotations in case someone wasn't consistent about using them around the element name...
-            element_name = element_name.replace('\'', '')
-            element_name = element_name.replace('"', '')
-
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
                 line = line.replace('"', '')
                 line = line.replace('\'', '')
-                if line.lstrip().find('{}:'.format(element_name)) == 0:
+                if line.partition(':')[0].strip() == name and ':' in line:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
             try:
                 element_type, element_parameters = self._find_parameters(element_definition)
             except (NameError, TypeError):
-                print("\n\nElement Definition for {} not found".format(repr(element_name)))
+                print("\n\nElement Definition for {} not found".format(repr(name)))
                 raise
 
-            self.beamline.add_element(element_name, element_type, element_parameters, subline=flag_subline)
-            beamline_string = beamline_string[next_element_end + 1:]  # Consume element name
-
-            # Catch dangling bracket
-            if beamline_string.rstrip() == ')':
-                beamline_string = ''
-
-            # Move up 1 level in recursion
-            if not beamline_string.strip():
-                if len(lines_list) != 0:
-                    beamline_string = lines_list[-1]
-                    lines_list.pop()
-                    flag_subline = False
+            beamline.add_element(name, element_type, element_parameters)
 
-    def _expand_line(self, beamline_string, coefficient):
+    def _expand_line(self, line_definition):
         """
-        Replaces successive elements of form N*(element/line list) or N*element or line with
-        explicit members.
-        :param beamline_string:
-        :param coefficient:
-        :return:
+        Lists the names in a line definition in order with all elements of form N*(element/line list) or N*element or
+        line replaced by explicit members. Quotations are stripped in case someone wasn't consistent about using them.
+        :param line_definition: (str)
+        :return: (list)
         """
-        beamline_string = beamline_string[1:]  # Consume '*'
-        subline = ''
-
-        # Case 1: Starts with (
-        if beamline_string[0] == '(':
-            beamline_string = beamline_string[1:]  # Consume '('
-            subline_end = beamline_string.find(')')
-
-            for _ in range(coefficient):
-                subline += beamline_string[:subline_end]
-                subline += ','
-            beamline_string = subline + beamline_string[subline_end + 2:]
-            # TODO: This may overwrite ) if the final element, but I may not care for the purpose of the parser
-        # Case 2: Not enclosed by ()
-        else:
-
-            # Catch if we are at the end of the enclosing beamline definition
-            subline_end = beamline_string.find(',')
-            if subline_end > -1:
-                pass
-            else:
-                subline_end = beamline_string.find(')')
-
-            for _ in range(coefficient):
-                subline += beamline_string[:subline_end]
-                subline += ','
-            beamline_string = subline + beamline_string[subline_end + 1:]  # No bracket to skip, just +1
-
-        return beamline_string
+        tokens = re.findall(r'"[^"]*"|\'[^\']*\'|[(),*]|[^\s(),*"\']+', line_definition)
+        groups = [[]]  # Members of the parentheses that are open
+        coefficients = []  # Coefficient of each open parenthesis
+        coefficient = 1
+
+        for i, token in enumerate(tokens):
+            if token == '(':
+                groups.append([])
+                coefficients.append(coefficient)
+                coefficient = 1
+            elif token == ')':
+                members = groups.pop()
+                groups[-1].extend(members * coefficients.pop())
+            elif token not in ',*':
+                if tokens[i + 1:i + 2] == ['*']:
+                    coefficient = int(token)
+                else:
+                    groups[-1].extend([token.strip('"\'').strip()] * coefficient)
+                    coefficient = 1
+
+        return groups[0]
 
     def _find_parameters(self, beamline_string):
         """
@@ -324,7 +255,7 @@ class BeamlineParser(object):
         if end < 0:
             return -1
 
-        return line[0:end].strip('"')
+        return line[0:end].strip().strip('"\'').strip()
 
 
 def parse_rpn(expression):
-- 
2.43.0


From 2d813ad28fd91c9130223217ee2f9cdf63f36e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 31/89] fix: lte variables may depend on each other and are not
 replaced inside other words

---
 rsbeams/rslattice/lte_parser.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index ae8326a..682e2b1 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -53,7 +53,7 @@ class BeamlineParser(object):
             print("File could not be read")
 
         self._sanitize_lattice_definition()
-        self._replace_stored_variables()
+        self._read_stored_variables()
 
     def __call__(self):
         """
@@ -182,11 +182,11 @@ class BeamlineParser(object):
             key = beamline_string[0].strip()
 
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2])
+                element_parameters[key] = parse_rpn(beamline_string[2], self.rpn_variables)
             except ValueError:
                 beamline_string = beamline_string[2].partition(',')
                 try:
-                    element_parameters[key] = parse_rpn(beamline_string[0])
+                    element_parameters[key] = parse_rpn(beamline_string[0], self.rpn_variables)
                 except ValueError:
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
@@ -204,7 +204,6 @@ class BeamlineParser(object):
         Performs:
         Remove commented and empty lines from lte file
         Concatenate lines ending in continuation character to their start
-        store rpn variables
         """
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
@@ -234,20 +233,15 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
-            if self.lattice_definition[linenumber].lstrip()[0] == '%':
-                variable = self.lattice_definition[linenumber].split()
-                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]))
-
-    def _replace_stored_variables(self):
+    def _read_stored_variables(self):
         """
-        Replace any variables stored in rpn_variable with their calculated value.
+        Calculate the variables stored by rpn expressions, in order since they may depend on previous ones.
         """
 
-        for linenumber in range(len(self.lattice_definition)):
-            for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
-                    self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+        for line in self.lattice_definition:
+            if line.lstrip()[0] == '%':
+                variable = line.lstrip()[1:].split()
+                self.rpn_variables[variable[-1]] = parse_rpn(' '.join(variable[:-2]), self.rpn_variables)
 
     def _read_name(self, line):
         end = line.find(':')
@@ -258,24 +252,29 @@ class BeamlineParser(object):
         return line[0:end].strip().strip('"\'').strip()
 
 
-def parse_rpn(expression):
+def parse_rpn(expression, variables=None):
     # TODO: Common expression: atan, pi, sqr,
     # See http://www.aps.anl.gov/Accelerator_Systems_Division/Accelerator_Operations_Physics/manuals/SDDStoolkit-6/node99.html
     # For additional capabilities that may need to be added
     """
     RPN Calculator
     :param expression:
+    :param variables: (dict) Values of stored variables that may be used in the expression.
     :return:
     """
 
+    variables = variables or {}
     stack = []
 
     for val in expression.split(' '):
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-        val = val.replace('pi', str(np.pi))
         val = val.strip()
+        if val in variables:
+            stack.append(variables[val])
+            continue
+        val = val.replace('pi', str(np.pi))
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
             token1 = stack.pop()
-- 
2.43.0


From 3666774f79c4bd104d5850fc8eca9b0a6c54493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 32/89] fix: types of lte elements without parameters and
 strings at the end of a definition

---
 rsbeams/rslattice/lte_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 682e2b1..cc0dc84 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -168,8 +168,11 @@ class BeamlineParser(object):
         :return:
         """
 
-        type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
+        beamline_string = beamline_string.strip()
+        type_start = beamline_string.find(':')
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
@@ -190,7 +193,7 @@ class BeamlineParser(object):
                 except ValueError:
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0]
+                    element_parameters[key] = beamline_string[0].strip()
 
             beamline_string = beamline_string[2]
 
-- 
2.43.0


From 70939f6d9d47c93ffa81fde5b2da9e4aeeeab433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 33/89] fix: accept empty strings as values in lte elements

---
 rsbeams/rslattice/lte_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index cc0dc84..3bd7acd 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -186,11 +186,11 @@ class BeamlineParser(object):
 
             try:
                 element_parameters[key] = parse_rpn(beamline_string[2], self.rpn_variables)
-            except ValueError:
+            except (ValueError, IndexError):
                 beamline_string = beamline_string[2].partition(',')
                 try:
                     element_parameters[key] = parse_rpn(beamline_string[0], self.rpn_variables)
-                except ValueError:
+                except (ValueError, IndexError):
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
                     element_parameters[key] = beamline_string[0].strip()
-- 
2.43.0


From 86875fb9757f378647f1b039c23ca21a244ac5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 34/89] fix: accept a comment on the last line of Trace3D and
 TraceWin files

---
 rsbeams/rslattice/trace3d_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..db61344 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From f7a2014002d9ef1b9774936cf949125444fb7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 35/89] fix: Trace3D files can be parsed and errors of TraceWin
 element handlers are not hidden

---
 rsbeams/rslattice/trace3d_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index db61344..fce74fa 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -102,6 +102,8 @@ class Trace3d(BeamlineParser):
         10: 'rfca'
     }
 
+    handlers = {}  # Methods that create the elements of types which need more than their parameters
+
     conversions = {
         # Multiply by to get BeamLine Units (mostly SI)
 
@@ -193,9 +195,9 @@ class Trace3d(BeamlineParser):
             type = self.get_element_type(line)
             parameters = self.get_element_parameters(line, type)
             self._convert_units(parameters)
-            try:
+            if type in self.handlers:
                 getattr(self, self.handlers[type])(name, parameters, self.beamline)
-            except KeyError:
+            else:
                 self.beamline.add_element(str(name), self.classifiers[type], parameters)
             self._standardize()  # TODO: Change this to handler
 
@@ -242,7 +244,7 @@ class TraceWin(Trace3d):
         'dtl_cell': ['L', 'LQ1', 'LQ2', 'GC', 'B1', 'B2', 'VOLT', 'PHASE', 'R', 'P', 'BETA_S', 'T_S', 'KTS', 'K2TS'],
         'marker': [],
         'rfca': ['MODE', 'N', 'BETA', 'VOLT', 'PHASE', 'R', 'P', 'KE0TI', 'KE0TO', 'DZI', 'DZO'],
-        'freq': ['FREQUENCY', ],
+        'freq': ['frequency', ],
         'field_map': ['TYPE', 'L', 'PHASE', 'R', 'KB', 'KE', 'KI', 'KA', 'FILE']
     }
 
@@ -309,7 +311,7 @@ class TraceWin(Trace3d):
         # We will assume the field map file has max/min of 1.0 / -1.0.
 
         frequency = self.global_parameters['frequency']
-        volt = element['VOLT'] * 1e6  # field map files store E-field in MV/m
+        volt = element['KE'] * 1e6  # field map files store E-field in MV/m
 
         beamline.add_element(name + 'cav', 'rfca',
                              {'l': element['L'], 'volt': volt, 'phase': element['PHASE'],
-- 
2.43.0


From 66e7d0eb92f855ca03e6decc9e24a9d5f32007db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 36/89] fix: the last element of a Trace3D file was dropped

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index fce74fa..097e1c6 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -187,7 +187,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
-- 
2.43.0


From 42b5f6af861850c2a3ed091100f58080490c7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 37/89] fix: numbers in Trace3D and TraceWin files keep their
 sign and exponent

---
 rsbeams/rslattice/trace3d_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 097e1c6..8655f42 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -9,6 +9,10 @@ from re import findall
 # Need to handle elements that can have different number of parameters depending on mode
 
 
+# Any notation of an integer or floating point number
+NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?"
+
+
 class BeamlineParser(object):
     """
     Class that will parse a .lte file and return a StructuredBeamline object.
@@ -153,7 +157,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(NUMBER, line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
@@ -334,12 +338,12 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(r"[-+]?\d*\.\d+|\d+", line)
+        values = line.split()[1:]
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
         for param_name, param_val in zip(names, values):
-            param_dict[param_name] = float(param_val)
+            param_dict[param_name] = param_val if param_name == 'FILE' else float(param_val)
 
         if len(names) != len(values):
             print("WARNING: Element {} {} had a parameter mismatch".format(self.get_element_name(line),
-- 
2.43.0


From 78c534f11a6f20726cf1301d13821632b0e3dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 38/89] fix: every Trace3D cavity keeps its own phase

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 8655f42..8d99e3c 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -236,8 +236,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, 'phase', phase)
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From 4bb6d126d452407473b3b7dc71c3a3df6894b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 39/89] fix: import Sirepo lines that are used several times or
 reversed with lines inside

---
 .../rslattice/templates/lattice_importer.py   | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..f690a7b 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -71,22 +71,18 @@ def parse_json(sirepo_json, beamline):
     if not the_beamline:
         raise ValueError(f"{beamline} not found in {sirepo_json}")
 
-    def generate_beamline(items, beamline, definition):
-        for item in items:
+    def generate_beamline(items, beamline, definition, reverse=False):
+        for item in items[::-1] if reverse else items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
+                line = beamline_definitions[abs(item)]
+                # Reversing a line also reverses all the lines inside of it
+                line_reverse = reverse != (item < 0)
+                name = "-" + line["name"] if line_reverse else line["name"]
+                is_copy = name in beamline.lines
+                beamline.add_beamline(name)
+                if not is_copy:
                     generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
+                        line["items"], beamline.lines[name], definition, line_reverse
                     )
             else:
                 element = element_defitions[item]
-- 
2.43.0


From 1025c98b10a627c7247d695d798a2fe655403ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 40/89] fix: the gradient of any multipole is its normalized
 strength times the rigidity

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..55610d6 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -18,7 +18,7 @@ def _get_gradient(k1, energy, mass, n=1):
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
-- 
2.43.0


From dbfe992cb76f5f1d5469686e5ce68ddddfe7682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:14 +0000
Subject: [PATCH 41/89] fix: convert magnet strengths with the central energy
 instead of the momentum

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 55610d6..64d5944 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From 12a3dbc5f3efb11f7bcdba4c7713f2b227a5941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:40 +0000
Subject: [PATCH 42/89] fix: convert every type of bend and sextupole that can
 be written for Warp

---
 rsbeams/pkcli/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 64d5944..5d6f063 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -26,9 +26,9 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
     for ele in beamline.get_beamline_elements():
         if ele.type == 'kquad' or ele.type == 'quad':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k1']), energy, mass)
-        elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
+        elif ele.type in ('csbend', 'sben', 'csrcsbend', 'ksbend', 'nibend', 'rben', 'tubend'):
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
-        elif ele.type == 'sext':
+        elif ele.type == 'sext' or ele.type == 'ksext':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
 
 # Public Functions
-- 
2.43.0


From f6c1e442d5bc4cb0905c250dd86e075d6721657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 43/89] fix: a Warp file written again has all its element
 definitions

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..5a6f512 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -56,6 +56,7 @@ class WarpWriter:
 
     def write_file(self, filename):
         contents = "import warp as wp\n"
+        self.element_names = []  # a file written again has all its definitions
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
         
-- 
2.43.0


From 5659c4d66427eddfe03b6de769e5051640b1e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 44/89] fix: the aperture parameter of a nonlinear insert can
 be changed

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
-- 
2.43.0


From 5517db5b09d4cc9ae65f60227285fef0c8aa89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 45/89] fix: computing a variance leaves the particles as they
 are

---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..3dbfce1 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = numpy.array(array6D[:,0], dtype=float)
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From dae3b91fca632368c1bd7160bcc7467a619583e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 46/89] fix: refusing a distribution type says which type was
 asked for

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..8bca3d3 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -27,7 +27,7 @@ class RsDistrib6D:
         if ( (distrib_type != 'uniform') and
              (distrib_type != 'gaussian') ):
             message = '\n\nERROR --'
-            message += '\n    distrib_type is specified as "' + self.distrib_type + '", which is not supported.'
+            message += '\n    distrib_type is specified as "' + str(distrib_type) + '", which is not supported.'
             message += '\n    Only "uniform" and "gaussian" are allowed.'
             message += '\n'
             raise Exception(message)
-- 
2.43.0


From 02be03c3143c3e3339f19a85cc7bdf20de85d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 47/89] fix: a beam matched to equal beta and gamma has the
 requested sign of alpha

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 8bca3d3..77905c1 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if (alphaII < 0.0) == (gMinusB >= 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From 9bb6b09f08f102d15e380786dcc369c3381cc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 48/89] fix: the particle count follows the array given to a
 phase space

---
 rsbeams/rsptcls/RsPhaseSpace6D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rsptcls/RsPhaseSpace6D.py b/rsbeams/rsptcls/RsPhaseSpace6D.py
index ffa92ad..29ed37c 100644
--- a/rsbeams/rsptcls/RsPhaseSpace6D.py
+++ b/rsbeams/rsptcls/RsPhaseSpace6D.py
@@ -86,6 +86,7 @@ class RsPhaseSpace6D:
 
     def set_array_6d(self,array_6d):
         self.array_6d = array_6d
+        self.check_array()
         return
 
     def get_array_x(self):
-- 
2.43.0


From 300df3e284efc0b8e78d3bf7ee05e088da7674fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 49/89] fix: the vertical beta function of a bunch is read back
 as the vertical one

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..3c8c5c7 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -124,7 +124,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From a0be13d21a04be9c57edb5f2ef4cef14f732ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 50/89] fix: the vertical beta function given for the
 transverse coordinates is used

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 3c8c5c7..583eed6 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -170,7 +170,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
-- 
2.43.0


From 871d45aeb2aad0e2affcb72f9fef677188c70032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 51/89] fix: the vertical Twiss parameters of a nonlinear bunch
 are consistent

---
 rsbeams/rsptcls/bunch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 583eed6..6ed4fe6 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -349,7 +349,8 @@ class NonlinearBunch(StandardBunch):
             cutoff (float): cutoff parameter for the nonlinear Gaussian distributoin, defaults to 4.
         """
 
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed)
+        #betay should be the same as betax
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betax, alphay, stdz, dpop, seed)
 
         self._t = t
         self._c = c
@@ -401,13 +402,13 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From c58779a973c1079d9d697c0cd25b3e56e7c86d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 52/89] fix: the cutoff of a nonlinear bunch can be changed

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 6ed4fe6..60b2e97 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -384,7 +384,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
-- 
2.43.0


From 6ed9c05c945c34248077ab58a4b9fdac8f8cdaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 53/89] fix: a nonlinear bunch can be injected quietly

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 60b2e97..1a85668 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -328,7 +328,7 @@ class NonlinearBunch(StandardBunch):
     """
 
     def __init__(self, npart, dist = 'KV', emitx = 1e-6, emity = 1e-6, betax=1., alphax = 0.,
-                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, queit=False, t = 0.1, c = 0.01, cutoff = 4):
+                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, quiet=False, t = 0.1, c = 0.01, cutoff = 4):
         """
 
         Args:
@@ -350,7 +350,7 @@ class NonlinearBunch(StandardBunch):
         """
 
         #betay should be the same as betax
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betax, alphay, stdz, dpop, seed)
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betax, alphay, stdz, dpop, seed, quiet)
 
         self._t = t
         self._c = c
-- 
2.43.0


From 8f09702252afb43dc3428cd73fa2c48e71b44bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 54/89] fix: the seed given to a bunch seeds its generators

---
 rsbeams/rsptcls/bunch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 1a85668..bc89a3b 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -96,6 +96,8 @@ class StandardBunch(object):
         #define seed
         if seed is not None:
             self.seed = seed
+            random.seed(seed)
+            np.random.seed(seed)
         else:
             self.seed = random.seed()
 
-- 
2.43.0


From 963f7c28ef1dacb386616df133b99630b470d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 55/89] fix: quiet injection with a nonzero alpha stays on the
 shell

---
 rsbeams/rsptcls/bunch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index bc89a3b..27cb023 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -300,6 +300,11 @@ class StandardBunch(object):
         ptcl2 = ptclCoords * translation2
         ptcl3 = ptclCoords * translation3
 
+        #The mirror images are taken in normal coordinates, which matters if alpha is not zero
+        shift = 2.*np.array([0, self.alphax*ptclCoords[0]/self.betax, 0, self.alphay*ptclCoords[2]/self.betay])
+        ptcl1 = ptcl1 + shift
+        ptcl3 = ptcl3 - shift
+
         phaseSpaceList.append(ptcl1)
         phaseSpaceList.append(ptcl2)
         phaseSpaceList.append(ptcl3)
-- 
2.43.0


From c289b4d76bf1dca4772bc1c8b17ca9b0b47c4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 56/89] fix: a nonlinear waterbag or Gaussian bunch has the
 emittances in force

---
 rsbeams/rsptcls/bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 27cb023..3494315 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -464,6 +464,9 @@ class NonlinearBunch(StandardBunch):
         if cutoff is not None:
             self.cutoff = cutoff
 
+        #total emittance for the emittances in force, adjusted below for the KV distribution
+        self.emit = self.emitx + self.emity
+
         if self.dist == 'KV':
             self.distribute_KV()
 
-- 
2.43.0


From 0915bbae2aceb12f1be9f3ae2b652b1f361fc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 57/89] fix: refuse a vanishing beta function before it is
 stored

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 3494315..15c46d6 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -117,7 +117,7 @@ class StandardBunch(object):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -128,7 +128,7 @@ class StandardBunch(object):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
@@ -401,7 +401,7 @@ class NonlinearBunch(StandardBunch):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -417,7 +417,7 @@ class NonlinearBunch(StandardBunch):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
-- 
2.43.0


From 92e45cb252be2996d68d99b97ab85960a6e0281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 58/89] fix: a bunch may be given any seed

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 15c46d6..2628eea 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -97,7 +97,7 @@ class StandardBunch(object):
         if seed is not None:
             self.seed = seed
             random.seed(seed)
-            np.random.seed(seed)
+            np.random.seed(random.getrandbits(32))
         else:
             self.seed = random.seed()
 
-- 
2.43.0


From e8c3fa866727fc5c4963eb5b10638841da1a439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 59/89] fix: points sampled with a Halton sequence have the
 shape of any sample

---
 rsbeams/rsstats/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..9116290 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -90,7 +90,7 @@ def sample(n: int, distribution: callable, a: int, b: int,
         y = np.random.random(n)
     elif method == 'halton':
         sampler = stats.qmc.Halton(d=1, scramble=True)
-        y = sampler.random(n=n)
+        y = sampler.random(n=n)[:, 0]
     else:
         raise NotImplementedError(f'{method} is not supported for method')
 
-- 
2.43.0


From 92ff1f00cfc79f9b5a769e7b271e58dacaf6ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 60/89] fix: an argument of zero reaches the sampled
 distribution

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 9116290..f67347a 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -39,9 +39,9 @@ def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) ->
 
     """
 
-    if args:
+    if args is not None:
         try:
-            args[0]
+            len(args)
         except TypeError:
             args = (args,)
         weights = distribution(grid, *args)
-- 
2.43.0


From 3af07a7f59493e81dda20cf664b6d6c77fa7ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 61/89] fix: interpolated samples stay inside the sampled range

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index f67347a..9307a05 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -98,8 +98,8 @@ def sample(n: int, distribution: callable, a: int, b: int,
         samples = np.searchsorted(cdf_vals, y)
         return x[samples]
     elif invert == 'interpolate':
-        icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', fill_value='extrapolate')
-        samples = icdf(y)
+        icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', bounds_error=False, fill_value=(a, b))
+        samples = np.clip(icdf(y), x.min(), x.max())
         return samples
     else:
         raise NotImplementedError(f'{invert} is not supported for invert')
-- 
2.43.0


From 3ed9beeef0ce1456853de6fab226bacafdf2cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 62/89] fix: the cumulative distribution ends at one

---
 rsbeams/rsstats/sample.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 9307a05..16874a6 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -14,13 +14,8 @@ def _calculate_cdf(weights: np.ndarray) -> np.ndarray:
     Returns:
         (ndarray) Array of values for the discrete CDF function represented by `weights`, with len(`weights`).
     """
-    total = np.sum(weights)
-    cdf_array = []
-    cumulative = 0
-    for weight in weights:
-        cumulative += weight
-        cdf_array.append(cumulative / total)
-    return np.array(cdf_array)
+    cumulative = np.cumsum(weights)
+    return cumulative / cumulative[-1]
 
 
 def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) -> np.ndarray:
-- 
2.43.0


From cca3a806c82778cc84c8a32f3ffff8009d844760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 63/89] fix: the tune of an Nx1 array of coordinates

---
 rsbeams/rsptcls/phases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsptcls/phases.py b/rsbeams/rsptcls/phases.py
index 1075368..df5dc5e 100644
--- a/rsbeams/rsptcls/phases.py
+++ b/rsbeams/rsptcls/phases.py
@@ -76,6 +76,9 @@ def tune_fft(x_c, t_i=1, t_f=None):
         t_f (Optional[int]): Index of x_c at which the fft ends. Defaults to None.
     """
     
+    # the transform runs over the turns, also if they are given as a column
+    x_c = np.ravel(x_c)
+
     if not t_f:
         # if no end specified, then take interval to end of x_c
         t_f = len(x_c)
-- 
2.43.0


From d962a5db10dc2448484c21643f347bc108bcaada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 64/89] fix: centroids of beams without detuning or with a
 negative second order

---
 rsbeams/rsphysics/decoherence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index 0c205e5..5cb0305 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -159,9 +159,10 @@ class CentroidPosition:
         #     for i in range(cpu_count()):
         #         x += range(N)[i::4]
 
-        if len(self.mu) == 1:
+        # the closed forms exist for a nonzero linear and a positive quadratic coefficient only
+        if len(self.mu) == 1 and self.mu[0] != 0:
             integration_function = self.integrate_first_order
-        elif len(self.mu) == 2:
+        elif len(self.mu) == 2 and self.mu[1] > 0:
             integration_function = self.integrate_second_order
         else:
             integration_function = self.integrate_any_order
-- 
2.43.0


From 34791df3aa0f0c0e56953856c8a6cf80e1788564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 65/89] fix: no stray lines from unscaled to scaled positions
 in magnet profiles

---
 rsbeams/rsplot/util.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 7fc19d0..8608558 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -79,7 +79,6 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
     Returns: matplotlib.collections.PatchCollection of Rectangles representation magnets.
 
     """
-    zp = 0.0  # Vertical midpoint
     used_element_types = _invert_mapping(_element_mappings)
     s = 0.0
     patch_collection = []
@@ -94,7 +93,6 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
             e1, e2 = s * scale, sdds_columns['s'][i] * scale
-            axes.plot([s, e1], [zp, zp], c=_element_colors[base_type])
             mag = Rectangle((e1, -height / 2.),
                             width=e2 - e1, height=height)
             patch_collection.append(mag)
-- 
2.43.0


From 0961887468f8dbb73df598a51f7af70995be03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 66/89] fix: characters without a Greek or special counterpart
 stay in the label

---
 rsbeams/rsplot/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 8608558..ccb5ef3 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -146,6 +146,7 @@ def process_character(char, mapping):
         return mapping[char]
     except KeyError:
         print(f"Could not find {char}")
+        return char
 
 
 def format_symbol(description, matplotlib=True):
-- 
2.43.0


From c467882845d201742b8c6f9961bf0337f058eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 67/89] fix: plot labels have balanced sub- and superscripts

---
 rsbeams/rsplot/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index ccb5ef3..4d49db7 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -153,10 +153,14 @@ def format_symbol(description, matplotlib=True):
     formatted_descr = '$' * matplotlib
     mode_set = False
     processing = False
+    open_scripts = 0
     for char in description:
         if mode_set:
             if char in MODE.keys():
-                formatted_descr += MODE[char]
+                # '$n' without a script to end does nothing
+                if char != 'n' or open_scripts > 0:
+                    formatted_descr += MODE[char]
+                    open_scripts += -1 if char == 'n' else 1
             else:
                 processing = PROCESS[char]
             mode_set = False
@@ -169,4 +173,4 @@ def format_symbol(description, matplotlib=True):
         else:
             formatted_descr += char
 
-    return formatted_descr + '$' * matplotlib
+    return formatted_descr + MODE['n'] * open_scripts + '$' * matplotlib
-- 
2.43.0


From 688ee4f62bfa78e9e6bc95e45abba0bb37e8e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 68/89] fix: letters after a Greek letter are not joined to its
 command in plot labels

---
 rsbeams/rsplot/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 4d49db7..be204ba 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -1,3 +1,4 @@
+import re
 from matplotlib.patches import Rectangle
 from matplotlib.collections import PatchCollection
 import numpy as np
@@ -169,8 +170,10 @@ def format_symbol(description, matplotlib=True):
             mode_set = True
             continue
         if processing:
-            formatted_descr += process_character(char, processing)
-        else:
-            formatted_descr += char
+            char = process_character(char, processing)
+        if char.isalpha() and re.search(r'\\[a-zA-Z]+$', formatted_descr):
+            # keep the letter apart from the command before it
+            formatted_descr += ' '
+        formatted_descr += char
 
     return formatted_descr + MODE['n'] * open_scripts + '$' * matplotlib
-- 
2.43.0


From 08cf0cb396ab62dcb5d9997704ae49f58065faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 69/89] fix: magnet profiles of files read with readSDDS have
 magnets

---
 rsbeams/rsplot/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index be204ba..e80a5e9 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -90,6 +90,8 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
 
     for i in range(sdds_columns.shape[-1]):
         element_type = sdds_columns['ElementType'][i]
+        if isinstance(element_type, bytes):
+            element_type = element_type.decode()
 
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
-- 
2.43.0


From edb5d971e060284d2354fd32aa281a58d4cdb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 70/89] fix: scatter plots remove their auxiliary line the way
 that still exists

---
 rsbeams/rsplot/plot_ptcls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..03976c7 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -109,7 +109,7 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
         toRemove, = ax.plot(x_plot[:,0], x_plot[:,1], c='w')
         ax.scatter(x_plot[:,0], x_plot[:,1], marker='.', c='k')
-        ax.lines.remove(toRemove)
+        toRemove.remove()
 
     if plot_flag.endswith('line'):
         ax.plot(x_plot[:,0], x_plot[:,1], c='k')
-- 
2.43.0


From cdc046155773dbf74353a71c0ba7b0e0982ed2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 71/89] fix: logarithmic axes of line and scatter plots

---
 rsbeams/rsplot/plot_ptcls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 03976c7..fadf7c8 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -116,10 +116,10 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
     if plot_flag in ['line', 'scatter', 'scatter-line']:
         if plot_type in ['log-log', 'semi-logx']:
-            ax.set_xscale('log', nonposx='mask')
+            ax.set_xscale('log', nonpositive='mask')
 
         if plot_type in ['log-log', 'semi-logy']:
-            ax.set_yscale('log', nonposy='mask')
+            ax.set_yscale('log', nonpositive='mask')
 
         if plot_type in ['linear', 'semi-logy']:
             ax.set_xscale('linear')
-- 
2.43.0


From 1ef88009040961b44cc00e011cec35e4b8dcac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 72/89] fix: contour plots of values on a mesh

---
 rsbeams/rsplot/plot_ptcls.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index fadf7c8..e1246e5 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -24,7 +24,6 @@ Subsequent mods are due to RadiaSoft,
 :license: http://www.apache.org/licenses/LICENSE-2.0.html
 """
 
-import math
 import numpy
 from matplotlib.path import Path
 
@@ -43,13 +42,8 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
             min_y = min(x_data[1])
             max_y = max(x_data[1])
 
-            points = len(y_data)
-            ratio = float(max_x - min_x)/(max_y - min_y)
-            shape_x = math.sqrt(points*ratio)
-            shape_y = math.sqrt(points/ratio)
             x_mesh, y_mesh = numpy.meshgrid(x_data[0], x_data[1])
-            z_mesh = y_data.reshape([shape_x, shape_y])
-            z_mesh = z_mesh[0:len(x_data[0]), 0:len(x_data[1])]
+            z_mesh = y_data.reshape(x_mesh.shape)
 
             ref = ax.contourf(x_mesh, y_mesh, z_mesh, levels=levels, \
                               extent=[min_x, max_x, min_y, max_y])
-- 
2.43.0


From 17ad1c9579730ca367a59adbd82be3605492312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 73/89] fix: axis labels of scatter plots are not cut to five
 characters

---
 rsbeams/rsplot/RsScatterPS6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 3c04a08..4cc8e58 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -29,7 +29,7 @@ class RsScatterPS6D:
 
         self.data6d = phaseSpace6D.get_array_6d()
 
-        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'])
+        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'], dtype=object)
         self.title='no plot title specified'
         self.figNum = 0
         return
-- 
2.43.0


From e7429ace21e119f276644a460c4db5bdc1104ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 74/89] fix: contour levels of a constant positive field

---
 rsbeams/rsplot/plot_ptcls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index e1246e5..9693756 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -129,7 +129,7 @@ def gen_contour_levels(field, nLevels=40, multiplier=1.1):
 
     max_e = multiplier * numpy.max(field)
     min_e = multiplier * numpy.min(field)
-    if abs(min_e) < max_e:
+    if abs(min_e) <= max_e:
         max_e = numpy.around(max_e, decimals=3)
         min_e = -max_e
     else:
-- 
2.43.0


From 663c8bd6264289593650208a6b5dae78bd27deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 75/89] fix: kinematic quantities of very fast and very slow
 particles lost their precision

---
 rsbeams/rsstats/kinematic.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 16d3c6d..6a5e94a 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -247,16 +247,12 @@ class Converter:
         Returns:
             (beta, gamma)
         """
-        beta = betagamma / np.sqrt(1 + betagamma**2)
+        gamma = np.sqrt(1 + betagamma**2)
 
-        return beta, 1. / np.sqrt(1 - beta**2)
+        return betagamma / gamma, gamma
 
     def start_momentum(self, momentum):
-        normalized_momentum = momentum / self.mass
-        beta = normalized_momentum / np.sqrt(1 + normalized_momentum**2)
-        gamma = 1 / np.sqrt(1 - beta**2)
-
-        return beta, gamma
+        return self.start_betagamma(momentum / self.mass)
 
     def start_energy(self, energy):
 
@@ -267,9 +263,10 @@ class Converter:
 
     def start_kenergy(self, kenergy):
 
-        gamma = kenergy / self.mass + 1.
+        normalized_kenergy = kenergy / self.mass
+        gamma = normalized_kenergy + 1.
 
-        return np.sqrt(1. - 1 / gamma**2), gamma
+        return np.sqrt(normalized_kenergy * (gamma + 1)) / gamma, gamma
 
     def start_brho(self, brho):
         beta, gamma = self.start_momentum(brho * c)
@@ -285,9 +282,10 @@ class Converter:
 
         return gamma * self.mass
 
-    def calculate_kenergy(self, gamma, **kwargs):
+    def calculate_kenergy(self, beta, gamma, **kwargs):
 
-        return self.mass * (gamma - 1)
+        # gamma - 1 without its loss of precision for slow particles
+        return self.mass * (beta * gamma)**2 / (gamma + 1)
 
     def calcuate_betagamma(self, beta, gamma, **kwargs):
         return beta * gamma
-- 
2.43.0


From ff30817ff9176cd8947dba7926e9c958df4e60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 76/89] fix: binary SDDS string columns with a field_length
 were read with that length

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index aae3c96..91494c8 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -203,10 +203,10 @@ class readSDDS:
                 if self._data_mode == 'binary':
                     self._column_keys[-1].append(('record_length', np.int32))
                     self._column_keys.append([])
-                    if col.fields['field_length'] == 0:
-                        self._variable_length_records = True
+                    # field_length only applies to ASCII data
+                    self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
-                                                  col.type_key.format('{}')))
+                                                  utils.data_types['string']))
                 else:
                     self._column_keys[-1].append((col.fields['name'],
                                                   col.type_key.format(self.max_string_length)))
-- 
2.43.0


From cb2070481830ee09a28787c05f73e5decbd1880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 77/89] fix: SDDS header values ending with a comma lost it

---
 rsbeams/rsdata/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index ed680fa..474cb21 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -22,7 +22,8 @@ class Datum:
             for entry in namelist:
                 if name in entry[: len(name)]:
                     start = entry.find("=")
-                    self.fields[name] = entry[start + 1 :].rstrip(",")
+                    # Only the separator is dropped: a quoted value may end with a comma
+                    self.fields[name] = entry[start + 1 :].removesuffix(",")
 
     def set_data_type(self):
         data_type = self.fields["type"]
-- 
2.43.0


From 26db3ed9d1b606584c2e74046aedcc544fbc3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 78/89] fix: editing an element by name failed when a subline
 had the same name

---
 rsbeams/rslattice/Beamline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 790e8c0..36fd428 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -225,7 +225,12 @@ class StructuredBeamline(object):
             ]
 
         if type(element) == str:
-            eles = [i for i, ele in enumerate(self.sequence) if ele.name == element]
+            # sublines are named independently of the elements
+            eles = [
+                i
+                for i, ele in enumerate(self.sequence)
+                if isinstance(ele, Element) and ele.name == element
+            ]
         elif type(element) == int:
             eles = [element]
 
-- 
2.43.0


From 94ad9f59094577b838709f3f66969e9cf3a117fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 79/89] fix: Warp files could not be executed for names that
 are no Python names

---
 rsbeams/rslattice/formatted_writer.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 5a6f512..42404f5 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from pykern.pkcollections import PKDict
 from sirepo.template.madx_converter import _build_field_map
@@ -54,11 +55,26 @@ class WarpWriter:
         self.element_names = []  # list of written elements
         self.drift_name = 'Drft'
 
+    @staticmethod
+    def _identifier(name, taken):
+        # Names with characters that cannot stand in a Python name (e.g. Q1.A) would make the file unusable
+        if name.isidentifier():
+            return name
+        name = re.sub(r'^(?=\d)|\W', '_', name)
+        while name in taken:
+            name += '_'
+        return name
+
     def write_file(self, filename):
         contents = "import warp as wp\n"
         self.element_names = []  # a file written again has all its definitions
-        line_contents = self.line_template.format(line_name=self.beamline.name)
-        elements = self.beamline.get_beamline_elements()
+        elements = list(self.beamline.get_beamline_elements())
+        identifiers = {}
+        for name in [self.beamline.name] + [ele.name.upper() for ele in elements]:
+            if name not in identifiers:
+                taken = [ele.name.upper() for ele in elements] + list(identifiers.values())
+                identifiers[name] = self._identifier(name, taken)
+        line_contents = self.line_template.format(line_name=identifiers[self.beamline.name])
         
         # Write element definitions
         for ele in elements:
@@ -68,7 +84,7 @@ class WarpWriter:
             # Write element definition
             if ele_type in self.mapping.keys() and name not in self.element_names:
                 new_ele_type = self.mapping[ele_type][0]
-                ele_str = self.element_template.format(name=name, type=new_ele_type)
+                ele_str = self.element_template.format(name=identifiers[name], type=new_ele_type)
                 for par in self.mapping[ele_type][1:]:
                     try:
                         ele_str += self.parameter_template.format(parameter=par, value=ele.parameters[par])
@@ -81,7 +97,7 @@ class WarpWriter:
                 pass
             else:
                 print("Element '{name}' with type {type} is not defined. Will be added as drift.".format(name=name, type=ele.type))
-                ele_str = self.element_template.format(name=name, type=self.drift_name)
+                ele_str = self.element_template.format(name=identifiers[name], type=self.drift_name)
                 if ele.parameters.get('l'):
                     length = ele.parameters.get('l')
                 else:
@@ -92,7 +108,7 @@ class WarpWriter:
                 
                 self.element_names.append(name)
             # Append to line defition
-            line_contents += '{} + '.format(name)
+            line_contents += '{} + '.format(identifiers[name])
             
         contents += line_contents[:-2]  # Cut off trailing '+'
         
-- 
2.43.0


From 853ff8b108f5167ce9eec6c25e9196b1282aa976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 80/89] fix: quoted strings in ASCII SDDS data were split at
 blanks and kept their quotes

---
 rsbeams/rsdata/SDDS.py  | 16 ++++++++++------
 rsbeams/rsdata/utils.py | 27 +++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 91494c8..123686d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -415,8 +415,10 @@ class readSDDS:
                 except (ValueError, IndexError):
                     pass
             if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
-                                               comments='!', deletechars='', unpack=False, delimiter='\n\t')
+                lines = utils._hide_quoted(self.openf, whole_line=True)
+                new_array = utils._show_quoted(
+                    self._get_reader()(lines, skip_header=position, dtype=dk, max_rows=1,
+                                       comments='!', deletechars='', unpack=False, delimiter='\n\t'))
                 if self.buffer:
                     position += 1
             else:
@@ -443,8 +445,9 @@ class readSDDS:
                         except (ValueError, IndexError):
                             pass
                     if self.data['&data'][0].fields['mode'] == 'ascii':
-                        new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
-                                                       comments='!', deletechars='')
+                        new_array = utils._show_quoted(
+                            self._get_reader()(utils._hide_quoted(self.openf), skip_header=position, dtype=dk,
+                                               max_rows=1, comments='!', deletechars=''))
                         if self.buffer:
                             position += 1
                     else:
@@ -457,8 +460,9 @@ class readSDDS:
             data_arrays.append([])
             dk = data_keys[0]
             if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
-                                               comments='!', deletechars='')
+                new_array = utils._show_quoted(
+                    self._get_reader()(utils._hide_quoted(self.openf), skip_header=position, dtype=dk,
+                                       max_rows=row_count, comments='!', deletechars=''))
                 if self.buffer:
                     position += row_count
                     if self.data['&data'][0].fields['no_row_counts']:
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 3fa1417..04ad119 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -1,3 +1,4 @@
+import re
 import shlex
 import numpy as np
 # TODO: Find sdds use case with 'short' type
@@ -38,6 +39,32 @@ def _shlex_split(line):
     return list(lex)
 
 
+# Stand-ins for the characters of quoted strings that would be taken for separators or comments in ASCII data
+_QUOTED_CHARACTERS = bytes.maketrans(b' \t!', b'\x01\x02\x03')
+_QUOTED_ORIGINALS = bytes.maketrans(b'\x01\x02\x03', b' \t!')
+_EMPTY_STRING = b'\x04'
+_QUOTED_FIELD = re.compile(rb'(?<!\S)"((?:[^"\\]|\\.)*)"(?!\S)')
+_QUOTED_LINE = re.compile(rb'^\s*"((?:[^"\\]|\\.)*)"\s*(?=!|$)')
+
+
+def _hide_quoted(lines, whole_line=False):
+    """Lines of ASCII data with quoted strings, the whole line or fields of it, replaced by text without blanks."""
+    def hide(match):
+        return re.sub(rb'\\(.)', rb'\1', match[1]).translate(_QUOTED_CHARACTERS) or _EMPTY_STRING
+
+    quoted = _QUOTED_LINE if whole_line else _QUOTED_FIELD
+    return (quoted.sub(hide, line) if b'"' in line else line for line in lines)
+
+
+def _show_quoted(array):
+    """Restore the strings found in the result of `_hide_quoted` in place."""
+    for name in array.dtype.names:
+        if array.dtype[name].kind == 'S':
+            array[name] = np.char.translate(array[name], _QUOTED_ORIGINALS, _EMPTY_STRING)
+
+    return array
+
+
 def iter_always():
     i = 0
     while True:
-- 
2.43.0


From 2d6cc59fd08d6d2bd9931c3354443ada70a9955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 81/89] fix: SDDS header attributes not followed by a blank
 were misread

name=x,units=m,symbol=y and name = x are namelists like any other: attributes
were merged into the value before them.
---
 rsbeams/rsdata/datatypes.py | 3 +--
 rsbeams/rsdata/utils.py     | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 474cb21..7b00f82 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -22,8 +22,7 @@ class Datum:
             for entry in namelist:
                 if name in entry[: len(name)]:
                     start = entry.find("=")
-                    # Only the separator is dropped: a quoted value may end with a comma
-                    self.fields[name] = entry[start + 1 :].removesuffix(",")
+                    self.fields[name] = entry[start + 1 :]
 
     def set_data_type(self):
         data_type = self.fields["type"]
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 04ad119..331a6a2 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -31,8 +31,11 @@ def _read_line(open_file):
 def _shlex_split(line):
     # Cannot just use shlex.split
     # Need to ignore single-quotes due to their use as common characters in accelerator notation
+    # Blanks around the separator belong neither to the attribute nor to its value
+    line = re.sub(r'("(?:[^"\\]|\\.)*")|\s*=\s*', lambda match: match[1] or '=', line)
     lex = shlex.shlex(line, posix=True)
     lex.quotes = '"'
+    lex.whitespace += ','
     lex.whitespace_split = True
     lex.commenters = ''
 
-- 
2.43.0


From 0f3f13a2bd8661dc5721754623f4c8f8fa7bfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 82/89] fix: rsconst could not be imported

KG_to_EV used c_SQ and e before they were defined.
---
 rsbeams/rsphysics/rsconst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsphysics/rsconst.py b/rsbeams/rsphysics/rsconst.py
index c1286d5..c6506aa 100644
--- a/rsbeams/rsphysics/rsconst.py
+++ b/rsbeams/rsphysics/rsconst.py
@@ -10,7 +10,7 @@ import scipy.constants as const
 # DEPRECATED use rsmath.rsconst or scipy
 C_to_STATC = const.c * 10.0
 EV_to_ERG = 1.602e-12
-KG_to_EV = c_SQ / e
+KG_to_EV = const.c**2 / const.e
 MKS_factor = 1.0 / (4.0 * math.pi * const.epsilon_0)
 RT_2 = math.sqrt(2.0)
 RT_2_OVER_PI = math.sqrt(2 / math.pi)
-- 
2.43.0


From 1ee93d2666f2a484be222f0955471b81b8ba2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 83/89] fix: ASCII SDDS fields called file, print or return
 could not be read

numpy.genfromtxt appends an underscore to these names.
---
 rsbeams/rsdata/SDDS.py  | 6 +++---
 rsbeams/rsdata/utils.py | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 123686d..ebaa28e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -418,7 +418,7 @@ class readSDDS:
                 lines = utils._hide_quoted(self.openf, whole_line=True)
                 new_array = utils._show_quoted(
                     self._get_reader()(lines, skip_header=position, dtype=dk, max_rows=1,
-                                       comments='!', deletechars='', unpack=False, delimiter='\n\t'))
+                                       comments='!', deletechars='', unpack=False, delimiter='\n\t'), dk)
                 if self.buffer:
                     position += 1
             else:
@@ -447,7 +447,7 @@ class readSDDS:
                     if self.data['&data'][0].fields['mode'] == 'ascii':
                         new_array = utils._show_quoted(
                             self._get_reader()(utils._hide_quoted(self.openf), skip_header=position, dtype=dk,
-                                               max_rows=1, comments='!', deletechars=''))
+                                               max_rows=1, comments='!', deletechars=''), dk)
                         if self.buffer:
                             position += 1
                     else:
@@ -462,7 +462,7 @@ class readSDDS:
             if self.data['&data'][0].fields['mode'] == 'ascii':
                 new_array = utils._show_quoted(
                     self._get_reader()(utils._hide_quoted(self.openf), skip_header=position, dtype=dk,
-                                       max_rows=row_count, comments='!', deletechars=''))
+                                       max_rows=row_count, comments='!', deletechars=''), dk)
                 if self.buffer:
                     position += row_count
                     if self.data['&data'][0].fields['no_row_counts']:
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 331a6a2..3f5b46e 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -59,8 +59,10 @@ def _hide_quoted(lines, whole_line=False):
     return (quoted.sub(hide, line) if b'"' in line else line for line in lines)
 
 
-def _show_quoted(array):
-    """Restore the strings found in the result of `_hide_quoted` in place."""
+def _show_quoted(array, dtype):
+    """Restore the strings found in the result of `_hide_quoted` and the field names of `dtype` in place."""
+    # NumPy renames fields called file, print or return when reading text
+    array.dtype.names = np.dtype(dtype).names
     for name in array.dtype.names:
         if array.dtype[name].kind == 'S':
             array[name] = np.char.translate(array[name], _QUOTED_ORIGINALS, _EMPTY_STRING)
-- 
2.43.0


From 0ab0dede3815d261aef0bf1f76fd3f5c567de528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 84/89] fix: terms of an rpn expression in an lte file may be
 separated by tabs

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 3bd7acd..85d5248 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -269,7 +269,7 @@ def parse_rpn(expression, variables=None):
     variables = variables or {}
     stack = []
 
-    for val in expression.split(' '):
+    for val in expression.split():
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-- 
2.43.0


From b0d390a1ad1956416e5ac9770a0c8791614a0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 85/89] fix: variables of a transfer matrix may be called like
 parameters or constants (L, K1, pi, E)

---
 rsbeams/rslattice/Beamline.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 36fd428..9af2c4f 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,7 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
-from sympy import symbols, cosh, sinh, sqrt, lambdify
+from sympy import Symbol, symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix, eye
 from ruamel import yaml
 from collections import UserList
@@ -259,13 +259,14 @@ class StructuredBeamline(object):
                 elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
+            # All at once, as symbols: a variable may be called like a parameter (e.g. L) or a constant (e.g. pi)
+            values = {}
             for key, val in ele.parameters.items():
                 key = key.upper()  # parameter names are stored in lower case
                 if type(val) == str:
-                    variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
-                else:
-                    elements[-1] = elements[-1].subs(key, val)
+                    val = variables[val] = Symbol(val)
+                values[Symbol(key)] = val
+            elements[-1] = elements[-1].subs(values, simultaneous=True)
 
         if concatenate:
             matrix = eye(4)
-- 
2.43.0


From dc8dcd0be748382051c8f69297df4b981d786f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 86/89] fix: beamlines whose name is a Python keyword gave a
 Warp file that cannot run

---
 rsbeams/rslattice/formatted_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 42404f5..f9b544e 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -1,3 +1,4 @@
+import keyword
 import re
 import numpy as np
 from pykern.pkcollections import PKDict
@@ -58,10 +59,10 @@ class WarpWriter:
     @staticmethod
     def _identifier(name, taken):
         # Names with characters that cannot stand in a Python name (e.g. Q1.A) would make the file unusable
-        if name.isidentifier():
+        if name.isidentifier() and not keyword.iskeyword(name):
             return name
         name = re.sub(r'^(?=\d)|\W', '_', name)
-        while name in taken:
+        while name in taken or keyword.iskeyword(name):
             name += '_'
         return name
 
-- 
2.43.0


From 7d885359cb4ea6b575fbe499496391894876e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 87/89] fix: Trace3D labels with text like a(, nt, = or ; in
 them changed or broke the element

---
 rsbeams/rslattice/trace3d_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 8d99e3c..98374a6 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -1,7 +1,7 @@
 from .Beamline import StructuredBeamline
 import numpy as np
 from scipy.constants import c
-from re import findall
+from re import IGNORECASE, findall, sub
 
 # lengths: mm
 # quad strength: T/m
@@ -133,6 +133,12 @@ class Trace3d(BeamlineParser):
         self.beamline_start_position = None
         self.beamline_end_position = None
 
+    def _sanitize_lattice_definition(self):
+        # Labels are not used, but may hold anything that is looked for in a line (e.g. 'DELTA(1)=2')
+        self.lattice_definition = [sub(r"(cmt\([^)]*\)\s*=\s*)'[^']*'", r"\1", line, flags=IGNORECASE)
+                                   for line in self.lattice_definition]
+        super(Trace3d, self)._sanitize_lattice_definition()
+
     # def __call__(self, *args, **kwargs):
     #     self._sanitize_lattice_definition()
     #     for line in self.lattice_definition:
-- 
2.43.0


From 359523cb29fcf9e5d09700072c326c838e0bb4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 88/89] fix: quoted strings in elegant lattices were cut at
 commas and '!', lost apostrophes, or were taken for line definitions

---
 rsbeams/rslattice/lte_parser.py | 53 ++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 85d5248..61cf058 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -82,7 +82,7 @@ class BeamlineParser(object):
             return "Set Beamline"
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
-            if re.search(r':\s*line\s*=\s*\(', self.lattice_definition[linenumber]):
+            if re.match(r'[^:]*:\s*line\s*=\s*\(', self.lattice_definition[linenumber]):
                 def_start = self.lattice_definition[linenumber].find('=') + 1
                 self.lines[self._read_name(self.lattice_definition[linenumber])] = \
                     self.lattice_definition[linenumber][def_start:]
@@ -118,9 +118,7 @@ class BeamlineParser(object):
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-                line = line.replace('"', '')
-                line = line.replace('\'', '')
-                if line.partition(':')[0].strip() == name and ':' in line:
+                if self._read_name(line) == name:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
@@ -168,34 +166,23 @@ class BeamlineParser(object):
         :return:
         """
 
-        beamline_string = beamline_string.strip()
-        type_start = beamline_string.find(':')
-        type_end = beamline_string.find(',')
-        if type_end < 0:
-            type_end = len(beamline_string)
-
-        element_type = beamline_string[type_start + 1:type_end].strip()
-        beamline_string = beamline_string[type_end + 1:]
-
+        # Commas in quotes do not end a parameter
+        definition, *keywords = re.findall(r'(?:"[^"]*"|[^,])+', beamline_string)
+        element_type = _unquote(definition.partition(':')[2])
         element_parameters = {}
 
         # Iterate through 'keyword' parameters of the element
-        while beamline_string.partition('=')[1]:
-            beamline_string = beamline_string.partition('=')
-            key = beamline_string[0].strip()
-
+        for keyword in keywords:
+            key, separator, value = keyword.partition('=')
+            if not separator:
+                continue
+            key, value = _unquote(key), _unquote(value)
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2], self.rpn_variables)
+                element_parameters[key] = parse_rpn(value, self.rpn_variables)
             except (ValueError, IndexError):
-                beamline_string = beamline_string[2].partition(',')
-                try:
-                    element_parameters[key] = parse_rpn(beamline_string[0], self.rpn_variables)
-                except (ValueError, IndexError):
-                    # TODO: This allows setting of non-numeric parameters (which do occur),
-                    # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0].strip()
-
-            beamline_string = beamline_string[2]
+                # TODO: This allows setting of non-numeric parameters (which do occur),
+                # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
+                element_parameters[key] = value
 
         return element_type, element_parameters
 
@@ -222,9 +209,8 @@ class BeamlineParser(object):
                 continue
 
             # Remove anything after a comment midline
-            if self.lattice_definition[linenumber].find('!') > -1:
-                self.lattice_definition[linenumber] = \
-                    self.lattice_definition[linenumber][:self.lattice_definition[linenumber].find('!')]
+            self.lattice_definition[linenumber] = re.sub(r'("[^"]*")|!.*', lambda match: match[1] or '',
+                                                         self.lattice_definition[linenumber])
 
             try:
                 if self.lattice_definition[linenumber].rstrip()[-1] == '&':
@@ -255,6 +241,13 @@ class BeamlineParser(object):
         return line[0:end].strip().strip('"\'').strip()
 
 
+def _unquote(text):
+    text = text.strip()
+    if re.fullmatch(r'"[^"]*"', text):
+        return text[1:-1].strip()
+    return text.replace('"', '').replace('\'', '').strip()
+
+
 def parse_rpn(expression, variables=None):
     # TODO: Common expression: atan, pi, sqr,
     # See http://www.aps.anl.gov/Accelerator_Systems_Division/Accelerator_Operations_Physics/manuals/SDDStoolkit-6/node99.html
-- 
2.43.0


From d0357ba8a5373d143b3c45a1d65cbaec1234b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 89/89] fix: strings that Python reads as numbers but elegant
 does not (1_2, nan, 2pi) became numbers

---
 rsbeams/rslattice/lte_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 61cf058..63312eb 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -270,7 +270,7 @@ def parse_rpn(expression, variables=None):
         if val in variables:
             stack.append(variables[val])
             continue
-        val = val.replace('pi', str(np.pi))
+        val = re.sub(r'^([-+]?)pi$', r'\g<1>' + str(np.pi), val)
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
             token1 = stack.pop()
@@ -295,6 +295,9 @@ def parse_rpn(expression, variables=None):
             stack.append(result)
         else:
             if val:
+                # float takes more than numbers (e.g. 1_2 and nan), which may be names
+                if not re.fullmatch(r'[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?', val, re.IGNORECASE):
+                    raise ValueError('Not a number: {}'.format(val))
                 stack.append(float(val))
 
     return stack.pop()
-- 
2.43.0

