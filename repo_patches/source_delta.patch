From 90f6d69769b0c5f5b919212f6869fe3de4faaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 01/38] fix: read all values of complex nodal results

---
 freesif/sequentialparser/parsers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..f1532e0 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1888,8 +1888,9 @@ atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
 # each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
-# be changed from float32 to complex64 before use
+# nres = nfield - 5 (this includes the factor (icompl + 1) for complex
+# results). If results are complex the dtype should be changed from float32 to
+# complex64 before use
 
 
 def rvnodres_reader(rec_name, rec, in_file, out_file):
@@ -1903,9 +1904,7 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
+        nres = nfield - 5
 
         res.add(in_file.read_floats(nres))
         recs.add(rec)
-- 
2.43.0


From 7c2a21582a0ecc95f1d57b0c4924be89a0956217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 02/38] fix: do not carry element types over from one file to
 the next

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f1532e0..eb389a6 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -139,7 +139,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +149,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From cd0429f5f26c3fa95389cf290814f3a5bd5fe1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 03/38] fix: recognise the names of all supported records when
 skipping

---
 freesif/sequentialparser/sequentialfiles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..89f9925 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,13 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION','W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE',
+'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +69,13 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE',
+b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From db7e58172186137c7e99bed4f153287a22597f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 04/38] fix: reject incomplete files, and always honour IEND
 records

---
 freesif/sequentialparser/parsers.py         | 10 +++++++-
 freesif/sequentialparser/sequentialfiles.py | 28 +++++++++++++++++----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index eb389a6..bd5e4e9 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -447,10 +447,12 @@ def general_parser(rec_name, rec, in_file, out_file):
 def parse_file(in_file, out_file, only=None):
 
     rec_name, rec = in_file.read_headerrec()
+    last_name = rec_name
 
     if only:
         while rec_name:
-            if rec_name in only:
+            last_name = rec_name
+            if rec_name in only or rec_name == 'IEND':
                 rec_name, rec = general_parser(rec_name, rec, in_file,
                                                   out_file)
             else:
@@ -459,8 +461,14 @@ def parse_file(in_file, out_file, only=None):
                     rec_name, rec = in_file.skip_restofrecord(rec_name, rec)
     else:
         while rec_name:
+            last_name = rec_name
             rec_name, rec = general_parser(rec_name, rec, in_file, out_file)
 
+    # the last record should always be an IEND
+    if last_name != 'IEND':
+        raise EOFError('unexpected end of file after {} record, the file is '
+                       'not complete'.format(last_name))
+
     # set attributes on superelement group
     # ------------------------------------
 
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 89f9925..00aa904 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -120,6 +120,11 @@ class SequentialFile(object):
                 self.read_floatrec()
             return self.read_headerrec()
 
+        # IEND records never have continuation records (and may be the last
+        # record on the file)
+        if rec_name == 'IEND':
+            return self.read_headerrec()
+
         # workaround to handle TDxxxxxx records (on unformatted files):
         if rec_name[:2] == 'TD':
             for i in range(int(rec[2]) // 100):
@@ -185,7 +190,10 @@ class UnformattedFile(SequentialFile):
 
         self.hasrest = False
 
-        rlen = struct.unpack('B', self.f.read(1))[0]
+        lenbyte = self.f.read(1)
+        if not lenbyte:
+            raise EOFError('unexpected end of file')
+        rlen = struct.unpack('B', lenbyte)[0]
         if rlen == 129:
             rlen = 128
         rec = self.f.read(rlen)
@@ -199,7 +207,10 @@ class UnformattedFile(SequentialFile):
         return self.tofloatrec(self.read_stringrec()[skipfirst:])
 
     def read_headerrec(self):
-        stringrec = self.read_stringrec()
+        try:
+            stringrec = self.read_stringrec()
+        except EOFError:
+            return '', ()
         return stringrec[:8].decode().strip(), self.tofloatrec(stringrec[8:])
 
     def read_floats(self, n, skipfirst=0):
@@ -275,7 +286,10 @@ class FormattedFile(SequentialFile):
     def read_stringrec(self):
         self.hasrest = False
 
-        return self.f.readline()[:-1]  # skip the newline character
+        line = self.f.readline()
+        if not line:
+            raise EOFError('unexpected end of file')
+        return line.rstrip('\n')  # skip the newline character
 
     def tofloatrec(self, stringrec):
         return tuple([float(stringrec[i:i+16])
@@ -289,10 +303,14 @@ class FormattedFile(SequentialFile):
         """
         returns a tuple (rec_name, rec) where rec_name is the name
         of the record (string) and rec is a tuple of floats (the
-        first 4 numeric values on the record).
+        first 4 numeric values on the record). rec_name is an empty string at
+        the end of the file.
         """
 
-        stringrec = self.read_stringrec()
+        try:
+            stringrec = self.read_stringrec()
+        except EOFError:
+            return '', ()
         return stringrec[:8].strip(), self.tofloatrec(stringrec[8:])
 
     def read_floats(self, n, skipfirst=0):
-- 
2.43.0


From 470f3cc4dba51061fffbe2be905f9af21f44c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 05/38] fix: release files and leave existing data untouched
 when a conversion fails

---
 freesif/data/file.py                 |  6 ++++-
 freesif/sequentialparser/parsers.py  |  5 ++++
 freesif/sequentialparser/sif2hdf5.py | 38 ++++++++++++++++++++--------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..4174ba6 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -40,7 +40,11 @@ def open_sif(filename):
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
     groupname = prefix + letter + idno
-    return File(tbfile)[groupname]
+    f = File(tbfile)
+    if groupname not in f:
+        f.close()
+        raise KeyError(groupname)
+    return f[groupname]
 
 def close_all_files():
     global _open_files
diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index bd5e4e9..efc3fa9 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -296,6 +296,11 @@ def get_table(rec_name, out_file):
         atom_data = atoms.get(rec_name, None)
         nrecs = record_count.get(rec_name, 10000)
 
+        # never mix data from different files in the same group
+        if not tables and where in out_file:
+            raise tb.NodeError('group "{}" already exists in file '
+                               '"{}"'.format(where, out_file.filename))
+
         if rec_name == 'RDPOINTS':
             pass
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..85e67f2 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -229,11 +229,36 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     else:
         out_file = tb.open_file(hdf5name, 'a' if append else 'w')
 
-    # TODO: check if group name allready exist
-
     # set filetypeid
     parsers.set_filetypeid(filetypeid)
 
+    existing_groups = set(out_file.root._v_groups)
+    try:
+        _parse_files(in_file, out_file, only, fdir, fileprefix, extension,
+                     is_formatted)
+    except BaseException:
+        # release the files, and don't leave half-converted data on file
+        in_file.close()
+        for name in set(out_file.root._v_groups) - existing_groups:
+            out_file.remove_node(out_file.root, name, recursive=True)
+        out_file.close()
+        raise
+
+    if in_memory:
+        # TODO: is it possible to change mode to 'r' here ?
+        return out_file
+
+    out_file.close()
+
+    # return hdf5 file name (full path)
+    return path.abspath(hdf5name)
+
+
+def _parse_files(in_file, out_file, only, fdir, fileprefix, extension,
+                 is_formatted):
+    """Parse the (top level) file and any lower level files
+    """
+
     # parse first file
     parsers.parse_file(in_file, out_file, only)
     in_file.close()
@@ -293,12 +318,3 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
             else:
                 print('file not found: ' + fname)
-
-    if in_memory:
-        # TODO: is it possible to change mode to 'r' here ?
-        return out_file
-
-    out_file.close()
-
-    # return hdf5 file name (full path)
-    return path.abspath(hdf5name)
-- 
2.43.0


From ad782a589977946c74a1d15192054eda3150e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 06/38] fix: treat lower case file names as the upper case ones

---
 freesif/data/helpers.py              |  2 +-
 freesif/sequentialparser/sif2hdf5.py | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index b0dde68..7bab50d 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -43,4 +43,4 @@ def parse_sifname(filename):
         raise ValueError('{} is not a valid SESAM file name.'.format(fname))
 
     d = match.groupdict()
-    return d['prefix'], d['letter'], d['selno'], d['ext']
+    return d['prefix'], d['letter'].upper(), d['selno'], d['ext']
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 85e67f2..7b889bb 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -198,7 +198,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.reset()
 
     # filetype identifier (T, L, R or G)
-    filetypeid = letter
+    filetypeid = letter.upper()
 
     # set group name prefix
     if usefileprefix:
@@ -234,8 +234,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     existing_groups = set(out_file.root._v_groups)
     try:
-        _parse_files(in_file, out_file, only, fdir, fileprefix, extension,
-                     is_formatted)
+        _parse_files(in_file, out_file, only, fdir, fileprefix, letter,
+                     extension, is_formatted)
     except BaseException:
         # release the files, and don't leave half-converted data on file
         in_file.close()
@@ -254,7 +254,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     return path.abspath(hdf5name)
 
 
-def _parse_files(in_file, out_file, only, fdir, fileprefix, extension,
+def _parse_files(in_file, out_file, only, fdir, fileprefix, letter, extension,
                  is_formatted):
     """Parse the (top level) file and any lower level files
     """
@@ -281,7 +281,7 @@ def _parse_files(in_file, out_file, only, fdir, fileprefix, extension,
         # generate candidate file names
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
@@ -304,6 +304,8 @@ def _parse_files(in_file, out_file, only, fdir, fileprefix, extension,
 
         # read files
         for i, fname in enumerate(fnames):
+            if letter.islower():  # file names in lower case
+                fname = fileprefix + fname[len(fileprefix):].lower()
             fname_fullpath = path.join(fdir, fname)
             if path.isfile(fname_fullpath):
                 if is_formatted:
-- 
2.43.0


From 234b70929cbda3ef9092739aa2179b96a9a9b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 07/38] fix: give superelements in a hierarchy access to the
 hierarchy transformations

---
 freesif/data/file.py      |  4 ++--
 freesif/data/strucdata.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 4174ba6..c573a1b 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -108,10 +108,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..a6d8031 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance=None, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
@@ -461,7 +461,9 @@ class FirstLevelData(StrucData):
                     raise ValueError(
                         'Transformation matrix must have shape (4,4), got '
                         '({},{})'.format(*trans.shape))
-            elif self._toplevel:
+            elif self._has_record('rsuptran') and trans=='top':
+                trans = self._get_record('rsuptran')[0]['t']
+            elif self._toplevel and self._toplevel._has_record('hsuptran'):
                 if isinstance(trans, str):
                     if trans == 'top':
                         trans = self._toplevel.get_transformation(self._seltyp,
@@ -471,8 +473,6 @@ class FirstLevelData(StrucData):
                 elif isinstance(trans, int):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
-            elif self._has_record('rsuptran') and trans=='top':
-                trans = self._get_record('rsuptran')[0]['t']
             else:
                 raise HierarchyError(
                     '{0}: No transformation data for trans={1}. {0} has no '
-- 
2.43.0


From e8683c2433fec08b02e2d675197dba67e0417b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 08/38] fix: make iteration, repr and closing of all File
 objects work

---
 freesif/data/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index c573a1b..008b889 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -48,7 +48,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
@@ -158,12 +158,12 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for k, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From d6e0c6da1ff000c696df62b68299c25f76248984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 09/38] fix: disconnected node results when some nodes are not
 used by any element

---
 freesif/data/strucdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a6d8031..8646f24 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -570,7 +570,8 @@ class FirstLevelData(StrucData):
         # disconnect
         if disconnected:
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            if sets or kind:  # data only contains nodes used by the elements
+                indices = self._update_connectivity(indices)
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From 4921d1d5eb4a189e28923526bd6b47c9f7756e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 10/38] fix: accept numpy integers as result case number

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 8646f24..61c986e 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -161,7 +161,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
-- 
2.43.0


From e28024f6e49ccf1125f0a6e55ace5acb3f581452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 11/38] fix: accept set names as returned by get_setnames

---
 freesif/data/strucdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 61c986e..d68c7c8 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -38,7 +38,11 @@ class StrucData(SifData):
         tdsetnam, tdsetnam_text = self._get_record('tdsetnam')
         gsetmemb, irmemb = self._get_record('gsetmemb')
 
-        setnames = (setnames,) if isinstance(setnames, str) else setnames
+        if isinstance(setnames, (str, bytes)):
+            setnames = (setnames,)
+        # names from *get_setnames* are bytes
+        setnames = [name.decode() if isinstance(name, bytes) else name
+                    for name in setnames]
         setmembs = []
         for setname in setnames:
             cond = 'name==b{}'.format(repr(setname))
-- 
2.43.0


From 4f1f12e083d48abcfacaa979eae88ce83dba53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 12/38] fix: accept numpy integers as hierarchy level

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index d68c7c8..884e70b 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -474,7 +474,7 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
             else:
-- 
2.43.0


From 3c157d7b534c448781b4b16728d354c7199864ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 13/38] fix: store shear factors and corner radius of sections
 as floats

---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index efc3fa9..dda2846 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1023,8 +1023,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1040,8 +1040,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1059,11 +1059,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1080,8 +1080,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1099,8 +1099,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1119,8 +1119,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1139,8 +1139,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1157,8 +1157,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1175,8 +1175,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1196,8 +1196,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From 616bbd7b904f8e78e2d385596925bd7166969f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 14/38] fix: GIORHR records without the optional last line

---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index dda2846..119a371 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1128,7 +1128,7 @@ class GIORHR_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GIORHR'] = GIORHR_rec
-readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 3)
+readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 2)
 
 
 # ---GLSEC------------------------------------------------------------------- #
-- 
2.43.0


From e7caaad33a4c16a1f1f84ce81d9c9590982991d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 15/38] fix: check every SCONMESH record, and don't repeat
 ranges in WDRESREF records

---
 freesif/sequentialparser/parsers.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 119a371..12ef510 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1346,16 +1346,16 @@ atoms['SCONMESH'] = [('irferep', tb.Int32Atom(), ())]
 def sconmesh_reader(rec_name, rec, in_file, out_file):
     """..."""
 
-    # assume numrep is allways 1. Throw NotImplementedError if above 1
-    if int(rec[2]) > 1:
-        raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
-
     table, irferep_arr = get_table(rec_name, out_file)
     irfereps = vldata(irferep_arr)
     recs = recdata(table, irfereps)
 
     while rec_name == 'SCONMESH':
 
+        # assume numrep is allways 1. Throw NotImplementedError if above 1
+        if int(rec[2]) > 1:
+            raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
+
         rec += in_file.read_floats(1)
 
         nferep = int(rec[4])
@@ -2053,6 +2053,7 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        found = set()
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
@@ -2064,6 +2065,12 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
                 freqs.add(dat)
             elif irefty == 3:
                 times.add(dat)
+            found.add(irefty)
+
+        # types not present on this record are empty
+        for irefty, vl in ((1, dirs), (2, freqs), (3, times)):
+            if irefty not in found:
+                vl.add(None)
         recs.add(rec)
         rec_name, rec = in_file.read_headerrec()
     recs.write()
-- 
2.43.0


From 892f7e49a4a9746cbcd7b318284d694e8e4dd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 16/38] fix: don't expose internal arrays of hydrodynamic data
 to modification

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..cd2e710 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From 9f2d56079d920a6e4c25a6ec82f40f0933ac9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 17/38] fix: section forces when several bodies have sections

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index cd2e710..6a1c33b 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -255,7 +255,7 @@ class HydroData(SifData):
         data = self._get_results('w1sforce', bodyid, 'data')
 
         # reshape data to (section, dof, direction, frequency)
-        data.shape = (self._nsections, self._ndirs, self._nfreqs, 6)
+        data.shape = (-1, self._ndirs, self._nfreqs, 6)
         return np.rollaxis(data, 3, 1)
 
     def get_fluidkinematics_raos(self, kind='elevation'):
-- 
2.43.0


From a98556a3cd95e23b680d2f29618035c360aacb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 18/38] fix: find_elemres_indices must not return a point on
 another element

---
 freesif/calc/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 2bc5a78..b2c66dd 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -29,6 +29,10 @@ def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
         nodeind_arr, = np.where(nodenumb==nodeno)
         elind, = np.where(elemnumb==elno)[0]
         tmp_arr = offset[elind] - nodeind_arr
+        nnodes = offset[elind] - (offset[elind-1] if elind > 0 else 0)
+        if not np.any((tmp_arr > 0) & (tmp_arr <= nnodes)):
+            raise ValueError('element {} does not have node {}'.format(elno,
+                                                                       nodeno))
         tmp_ind = tmp_arr[tmp_arr>0].argmin()
         indices.append(nodeind_arr[tmp_ind])
     return np.array(indices)
-- 
2.43.0


From ab27910524af6d99f5f57169b5dfe4381d975726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 19/38] fix: VtuWriter must not change the caller's arrays, and
 survive unsupported elements

---
 freesif/utils/writers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..7827b6a 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -104,10 +104,10 @@ class VtuWriter(object):
         """
         self._close_data()
         self._close_piece()
-        self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
+        connectivity = connectivity.copy()  # don't change the caller's array
+        _reorder_connectivity_vtk((connectivity, offsets, types))
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -117,6 +117,7 @@ class VtuWriter(object):
 
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
+        self._piece_open = True
 
         # write points
         self._open_element('Points')
@@ -146,6 +147,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        arr = arr.copy()  # don't change the caller's array
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0


From 6a2bc360d259ed97bd10d197efbd4d11a0504589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 20/38] fix: write valid attribute values to vtu files, and
 allow repeated close

---
 freesif/utils/writers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 7827b6a..680a185 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import quoteattr
 
 from ..exceptions import VtkError
 
@@ -154,6 +155,8 @@ class VtuWriter(object):
 
 
     def close(self):
+        if self._file.closed:
+            return
         self._close_data()
         self._close_piece()
         self._close_element('UnstructuredGrid')
@@ -229,7 +232,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s=%s' % (str(k).encode(), quoteattr(str(v)).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From 2154b5010cb9555988cfb89c6cd2b95fcd8da40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 21/38] fix: keep the superelement of the first record when
 HIERARCH records are in several runs

---
 freesif/sequentialparser/parsers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 12ef510..1d94551 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -572,8 +572,9 @@ def hierarch_reader(rec_name, rec, in_file, out_file):
 
     rec2 = in_file.read_floats(4)
 
-    global current_seltyp
-    current_seltyp = int(rec[2])
+    global has_hierarch, attoplevel, current_seltyp
+    if not attoplevel:  # not if this is a second run of HIERARCH records
+        current_seltyp = int(rec[2])
 
     table, ihsref_arr = get_table(rec_name, out_file)
     ihsrefs = vldata(ihsref_arr)
@@ -597,7 +598,6 @@ def hierarch_reader(rec_name, rec, in_file, out_file):
     recs.write()
 
     # set module level swithches
-    global has_hierarch, attoplevel
     has_hierarch = True
     attoplevel = True
 
-- 
2.43.0


From 84b0a651ac599e7a759a368ea97213d9fe683491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 22/38] fix: skip records with negative first value also inside
 a run of records

---
 freesif/sequentialparser/sequentialfiles.py | 40 +++++++++++++++------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 00aa904..efd64c4 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -207,11 +207,21 @@ class UnformattedFile(SequentialFile):
         return self.tofloatrec(self.read_stringrec()[skipfirst:])
 
     def read_headerrec(self):
-        try:
-            stringrec = self.read_stringrec()
-        except EOFError:
-            return '', ()
-        return stringrec[:8].decode().strip(), self.tofloatrec(stringrec[8:])
+        while True:
+            try:
+                stringrec = self.read_stringrec()
+            except EOFError:
+                return '', ()
+            rec = self.tofloatrec(stringrec[8:])
+
+            # skip records with negative first value (also inside a run of
+            # records with the same name)
+            if rec and rec[0] < 0.:
+                if rec[0] == -5.:
+                    self.read_floatrec()
+                continue
+
+            return stringrec[:8].decode().strip(), rec
 
     def read_floats(self, n, skipfirst=0):
         """returns tuple of n floats"""
@@ -307,11 +317,21 @@ class FormattedFile(SequentialFile):
         the end of the file.
         """
 
-        try:
-            stringrec = self.read_stringrec()
-        except EOFError:
-            return '', ()
-        return stringrec[:8].strip(), self.tofloatrec(stringrec[8:])
+        while True:
+            try:
+                stringrec = self.read_stringrec()
+            except EOFError:
+                return '', ()
+            rec = self.tofloatrec(stringrec[8:])
+
+            # skip records with negative first value (also inside a run of
+            # records with the same name)
+            if rec and rec[0] < 0.:
+                if rec[0] == -5.:
+                    self.read_floatrec()
+                continue
+
+            return stringrec[:8].strip(), rec
 
     def read_floats(self, n, skipfirst=0):
         """returns array of n floats."""
-- 
2.43.0


From 0ef0e8d43b72ff1075c0edd08ce6b958662f8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 23/38] fix: skip TSLAYER records on unformatted files

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index efd64c4..2a6ce7e 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -126,7 +126,7 @@ class SequentialFile(object):
             return self.read_headerrec()
 
         # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
-- 
2.43.0


From c98b54c1e159e6cc3937afb1eafdf89cc5d6bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 24/38] fix: don't use the layout of the previous RDIELCOR
 record for one without RDPOINTS

---
 freesif/sequentialparser/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 1d94551..e426fc9 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1762,6 +1762,9 @@ def rdielcor_reader(rec_name, rec, in_file, out_file):
                 nlay, nok, noj, noi = 0, 1, 1, 3
             elif icoref == 24:  # Flat Quadrilateral Thin Shell
                 nlay, nok, noj, noi = 0, 2, 3, 3
+            else:
+                raise KeyError('RDIELCOR: no RDPOINTS record with '
+                               'ICOREF={}'.format(icoref))
 
         # gamma
         if nok == 1:
-- 
2.43.0


From 96b5989ba98a8d1fa16f88776711a8716786e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 25/38] fix: refuse body number 0 in hydrodynamic result
 queries

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 6a1c33b..b5a813c 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -101,7 +101,7 @@ class HydroData(SifData):
         """
 
         res = self._get_record(rec_name)
-        if bodyid:
+        if bodyid is not None:
             ibcond = self._get_ibcond(bodyid)
             # get all records for this ibcond
             res_recs = res.read_where('ibcond=={}'.format(ibcond))
-- 
2.43.0


From d41b9b61187deae25501e5e72d5b13874eec5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 26/38] fix: error for frequency dependent matrices that are
 not on the file

---
 freesif/data/hydrodata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index b5a813c..1aa6dbe 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -328,6 +328,7 @@ class HydroData(SifData):
         if mtyp in (11, 22, 31, 32):  # freq indep
             return getrow(w1matrix, cond)['hmat']
         elif mtyp in (12, 21):  # freq dep
+            getrow(w1matrix, cond)  # error if there are no such matrices
             return np.rollaxis(w1matrix.read_where(cond)['hmat'], 0, 3)
         else:
             raise ValueError('mtyp must be 11, 12, 21, 22, 31 or 32, '
-- 
2.43.0


From 587e3b9af23d39bf73672468560336b29b17771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 27/38] fix: write big-endian arrays correctly to vtu files

---
 freesif/utils/writers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 680a185..fd88455 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -196,6 +196,8 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
+        # byte order according to the byte_order attribute of the file
+        arr = arr.astype(arr.dtype.newbyteorder('<'), copy=False)
         arrstr = arr.ravel().tostring()
         self._file.write(b64encode(header + arrstr))
 
-- 
2.43.0


From 7f6855951b55fa4a1f1019306b4a5032086fd690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 28/38] fix: VtkError for element node data outside a data
 block of a vtu file

---
 freesif/utils/writers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index fd88455..259d36e 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -141,13 +141,13 @@ class VtuWriter(object):
     def add_data(self, arr, name, compnames=None):
         """
         """
-        if not self._pointdata_open and not self._celldata_open:
-            raise VtkError('Call start_pointdata() or start_celldata() first')
+        self._check_data_open()
         self._write_array(arr, name, compnames)
 
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        self._check_data_open()
         arr = arr.copy()  # don't change the caller's array
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
@@ -206,6 +206,10 @@ class VtuWriter(object):
 
         self._close_element('DataArray')
 
+    def _check_data_open(self):
+        if not self._pointdata_open and not self._celldata_open:
+            raise VtkError('Call start_pointdata() or start_celldata() first')
+
     def _close_piece(self):
         if self._piece_open:
             self._close_element('Piece')
-- 
2.43.0


From 4abb36ef1cee2823a19b03e70d56e360907e1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 29/38] fix: signed absolute maximum of integer arrays

---
 freesif/calc/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index b2c66dd..2cece10 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -13,7 +13,7 @@ def absmax(a, axis=None):
     """
     amax = a.max(axis)
     amin = a.min(axis)
-    return np.where(-amin > amax, amin, amax)
+    return np.where((amin < 0) & (amin < -amax), amin, amax)
 
 
 def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
-- 
2.43.0


From 0388f710949b6f75e871ac1560d83c917c2b733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 30/38] fix: refuse invalid arrays of a vtu piece before
 anything is written

---
 freesif/utils/writers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 259d36e..22cc85b 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -103,10 +103,15 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
+        connectivity, offsets, types = cells
+
+        # nothing is written for a piece that can not be completed
+        for arr in (points, connectivity, offsets):
+            self._check_array(arr)
+
         self._close_data()
         self._close_piece()
 
-        connectivity, offsets, types = cells
         connectivity = connectivity.copy()  # don't change the caller's array
         _reorder_connectivity_vtk((connectivity, offsets, types))
 
@@ -166,12 +171,11 @@ class VtuWriter(object):
     def _write_array(self, arr, name, compnames=None):
 
         # accept 1d or 2d array
+        self._check_array(arr)
         if arr.ndim == 2:
             ncomps = arr.shape[1]
-        elif arr.ndim == 1:
-            ncomps = 1
         else:
-            raise VtkError('array must be 1d or 2d')
+            ncomps = 1
 
         # create comp name kwargs
         if compnames:  # sequence of str
@@ -206,6 +210,12 @@ class VtuWriter(object):
 
         self._close_element('DataArray')
 
+    def _check_array(self, arr):
+        if arr.ndim not in (1, 2):
+            raise VtkError('array must be 1d or 2d')
+        if arr.dtype.name not in numpy2vtk_datatype:
+            raise VtkError('unsupported data type {}'.format(arr.dtype.name))
+
     def _check_data_open(self):
         if not self._pointdata_open and not self._celldata_open:
             raise VtkError('Call start_pointdata() or start_celldata() first')
-- 
2.43.0


From 85944773d634a5e44a5715ef5539143a39ae7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 31/38] fix: write the record name in
 FormattedFile.write_record

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 2a6ce7e..c94108c 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -392,7 +392,7 @@ class FormattedFile(SequentialFile):
             # self.write(' '*self.float_places_left*16 + '\n')
             self.f.write('\n')
 
-        self.write('{:<8}'.format(header))
+        self.f.write('{:<8}'.format(header))
         for f in rec:
             self.f.write('{:>16.8e}'.format(f))
 
-- 
2.43.0


From b023a3ee9b7c034abf73561295ae389374c1fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 32/38] fix: no empty line after text written to a formatted
 file

---
 freesif/sequentialparser/sequentialfiles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index c94108c..c13d8a2 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -403,6 +403,7 @@ class FormattedFile(SequentialFile):
     def write_string(self, string, leading_blanks=8):
         if self.float_places_left:
             self.f.write('\n')
+            self.float_places_left = 0
 
         self.f.write(' '*leading_blanks + string + '\n')
 
-- 
2.43.0


From 5a0a17e80010a839920567117b15045fb4beb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 33/38] fix: at_headerrec after the values of a record are read
 in pieces

---
 freesif/sequentialparser/sequentialfiles.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index c13d8a2..cdff892 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -253,8 +253,7 @@ class UnformattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
@@ -360,8 +359,7 @@ class FormattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
-- 
2.43.0


From c50e7723d09272b206e5dbe3ab34fb4fa28484e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 34/38] fix: opening a linked file in memory failed, or left it
 open, if the link has another name

---
 freesif/data/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 008b889..b41a16e 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -38,7 +38,8 @@ def open_sif(filename):
     # at the same time.
 
     tbfile = sif2hdf5(filename, in_memory=True)
-    prefix, letter, idno, ext = parse_sifname(filename)
+    # the file may be a link, data are named after the file it refers to
+    prefix, letter, idno, ext = parse_sifname(path.realpath(filename))
     groupname = prefix + letter + idno
     f = File(tbfile)
     if groupname not in f:
-- 
2.43.0


From 865177921093a1894d072c39c153840590709a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 35/38] fix: release the file if its data sets cannot be set up

---
 freesif/data/file.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b41a16e..ba340e5 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -86,6 +86,17 @@ class File(object):
             self.filename = self._tbfile.filename
 
         self._data = {}
+        try:
+            self._setup_data()
+        except BaseException:
+            # the file contains data that cannot be handled, release it
+            self._tbfile.close()
+            raise
+
+        _open_files.add(self)
+        self._isopen = True
+
+    def _setup_data(self):
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
 
@@ -114,9 +125,6 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
-        _open_files.add(self)
-        self._isopen = True
-
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
-- 
2.43.0


From ac4fb6ffa14e494cf0c5696f227519e30bbe9193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 36/38] fix: files with hydrodynamic data without WDRESREF or
 WGLOBDEF records could not be opened

---
 freesif/data/hydrodata.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 1aa6dbe..a820303 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -53,7 +53,10 @@ class HydroData(SifData):
         """
         super(HydroData, self).__init__(tbgroup, fileinstance)
 
-        wdresref, dirs, freqs, times = self._get_record('wdresref')
+        try:
+            wdresref, dirs, freqs, times = self._get_record('wdresref')
+        except NoSuchRecordError:  # no results
+            dirs = freqs = times = np.empty((0, 2))
 
         # get unique frequencies without sorting
         _, idx = np.unique(freqs[:,1], return_index=True)
@@ -81,10 +84,13 @@ class HydroData(SifData):
             self._npoints = 0
 
         # set g, ro and depth as global instance variables
-        wglobdef = self._get_record('wglobdef')[0]  # allways 1 record only
-        self.g = wglobdef['g']
-        self.ro = wglobdef['ro']
-        self.depth = wglobdef['depth']
+        try:
+            wglobdef = self._get_record('wglobdef')[0]  # 1 record only
+            self.g = wglobdef['g']
+            self.ro = wglobdef['ro']
+            self.depth = wglobdef['depth']
+        except NoSuchRecordError:
+            self.g = self.ro = self.depth = None
 
         self.domaintype = 'frequency' if self._nfreqs else 'time'
 
@@ -282,7 +288,8 @@ class HydroData(SifData):
             p.shape = (self._ndirs, self._nfreqs, self._npoints)
             p = np.rollaxis(p, 2)
             if kind == 'elevation':
-                return p / self.ro / self.g
+                wglobdef = self._get_record('wglobdef')[0]
+                return p / wglobdef['ro'] / wglobdef['g']
             return p
         elif kind == 'velocity':
             v.shape = (self._ndirs, self._nfreqs, self._npoints, 3)
-- 
2.43.0


From 68b5c86bb441ddefc07772c74c73b4598b30eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 37/38] fix: refuse trans values that are neither a matrix, a
 level nor 'top'

In a superelement hierarchy a float or a short sequence was multiplied with
the coordinates instead of being refused.
---
 freesif/data/strucdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 884e70b..dc9cd01 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -477,6 +477,10 @@ class FirstLevelData(StrucData):
                 elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
+                elif np.shape(trans) != (4, 4):
+                    raise ValueError(
+                        'trans must be a matrix with shape (4,4), a level '
+                        '(int) or "top", got {!r}'.format(trans))
             else:
                 raise HierarchyError(
                     '{0}: No transformation data for trans={1}. {0} has no '
-- 
2.43.0


From 5e5927c0f91cc9f86bbea80e2b81e41b87a1e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 38/38] fix: refuse file names that only begin like the name of
 a SESAM file

R1.SIF.bak, R1.SIFx and R1xSIF were accepted, and converted to R1.SIF.h5,
R1.Sh5 and R1xh5.
---
 freesif/data/helpers.py              | 4 ++--
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index 7bab50d..fc9c421 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -34,8 +34,8 @@ def parse_sifname(filename):
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
                    '(?P<selno>[1-9]\d*)' + \
-                   '(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '(H[1-9]\d*)?[.]' + \
+                   '(?P<ext>(si[fun]|fem))\Z'
 
     match = re.match(name_pattern, fname)
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 7b889bb..e9cd04e 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -178,8 +178,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
-                   '[1-9]\d*(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '[1-9]\d*(H[1-9]\d*)?[.]' + \
+                   '(?P<ext>(si[fun]|fem))\Z'
 
     match = re.match(name_pattern, fname)
 
-- 
2.43.0

