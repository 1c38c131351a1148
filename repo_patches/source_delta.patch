From 5dc3c09600d4fad00b8d8f3a9f7968c6b5121dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 01/42] fix: keep the header of a binary set 58 written in
 overwrite mode

---
 pyuff/datasets/dataset_58.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..cc462ba 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
+            # the payload goes through the handle that is already open, so that
+            # the header written above is kept in both modes
+            fh.flush()
             # write data
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 535e07d6b01b17cf6e5bbb8b80273ad883b23da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 02/42] fix: write the payload of a binary set 58 in the
 precision its header announces

---
 pyuff/datasets/dataset_58.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index cc462ba..0ea0d2a 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -958,16 +958,13 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
         if dset['binary']:
             # the payload goes through the handle that is already open, so that
             # the header written above is kept in both modes
             fh.flush()
-            # write data
-            if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
-            else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+            # write data, in the precision announced in the header
+            fmt = ('<' if bo == 1 else '>') + ('d' if is_double else 'f')
+            [fh.buffer.write(struct.pack(fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 02c5824c4d9ae6b5ba635d334527dc93ccc44b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 03/42] fix: byte count of complex and unevenly spaced binary
 sets 58

---
 pyuff/datasets/dataset_58.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 0ea0d2a..d841d4b 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -886,19 +886,23 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             if force_double:
                 dset['ord_data_type'] = 6
 
+        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
+
+        # number of values stored per point: the ordinate (real and imaginary
+        # part) and, for uneven spacing, the abscissa
+        n_values = (1 if is_r else 2) + (0 if is_even else 1)
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
+            n_bytes = num_pts * n_values * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
+            n_bytes = num_pts * n_values * 4
 
         if 'n_bytes' in dset.keys():
             dset['n_bytes'] = n_bytes
 
         ord_data_type = dset['ord_data_type']
 
-        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
 
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
-- 
2.43.0


From 6f174240968065fd7127497aac0d72e2710c8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 04/42] fix: default of the optional orddenom_spec_data_type of
 set 58

---
 pyuff/datasets/dataset_58.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index d841d4b..72a1248 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -867,6 +867,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 'spec_data_type': 0,
                 'abscissa_spec_data_type': 0,
                 'ordinate_spec_data_type': 0,
+                'orddenom_spec_data_type': 0,
                 'z_axis_spec_data_type': 0,
                 'version_num': 0,
                 'abscissa_spacing': 0}
-- 
2.43.0


From 77612f3b75a148b6bcf77158674838983f851c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 05/42] fix: write a set 58 of a single sample

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 72a1248..4522064 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -908,7 +908,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        dx = dset['x'][1] - dset['x'][0] if num_pts > 1 else 0.0
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From 09afd0eb9c03c83694065638c5e1343a6d3eff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 06/42] fix: report binary sets in get_set_formats

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..4c6bb1b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -227,7 +227,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From ec2ae70b65f103999f051a748b90b625ff5dbcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 07/42] fix: drop the information of the previous content when
 the file holds no sets or is gone

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 4c6bb1b..f15aea6 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # Nothing of the previous content is kept
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From 4340422c59ede651e2526710fcdf685207227491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 08/42] fix: leave no partial data set behind when writing
 fails

---
 pyuff/pyuff.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index f15aea6..6c59ac3 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -421,6 +421,7 @@ class UFF:
         an alias (aka pointer), this is reflected at the caller too.
         
         """
+        n_before = 0  # size of the content that is kept
         if mode.lower() == 'overwrite':
             # overwrite mode
             try:
@@ -429,6 +430,8 @@ class UFF:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         elif mode.lower() == 'add':
             # add (append) mode
+            if self.file_exists():
+                n_before = os.path.getsize(self._filename)
             try:
                 fh = open(self._filename, 'at', encoding='utf-8')
             except:
@@ -479,11 +482,17 @@ class UFF:
             else:
                 # Unsupported data-set - do nothing
                 pass
-        except:
             fh.close()
+        except:
+            # Remove what was written of the failed data-set
+            try:
+                fh.close()
+            except OSError:
+                pass
+            with open(self._filename, 'r+b') as fh:
+                fh.truncate(n_before)
+            self.refresh()
             raise  # re-raise the last exception
-        else:
-            fh.close()
         self.refresh()
 
 
-- 
2.43.0


From db54a65ae9a1ef197e2ed8457082c71111a06360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 09/42] fix: node count of a trace line with repeated nodes
 (set 82)

---
 pyuff/datasets/dataset_82.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..1d49e83 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -52,9 +52,7 @@ def _write82(fh, dset):
         # write strings to the file
         # removed jul 2017: unique_nodes = set(dset['nodes'])
         # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        n_nodes = len(dset['nodes'])
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
@@ -86,7 +84,11 @@ def _extract82(block_data):
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
         split_data = ''.join(split_data[4:])
         split_data = split_data.split()
-        dset['nodes'] = np.asarray([float(str) for str in split_data])
+        nodes = np.asarray([float(str) for str in split_data])
+        # Zeros that only fill up the last record are no nodes
+        if not np.any(nodes[dset['n_nodes']:]):
+            nodes = nodes[:dset['n_nodes']]
+        dset['nodes'] = nodes
     except:
         raise Exception('Error reading data-set #82')
     return dset
-- 
2.43.0


From f5d04bd35763df694083b073c55a8db98156ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 10/42] fix: write the date and time given to prepare_151 for
 the universal file

---
 pyuff/datasets/dataset_151.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..b151a23 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,9 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        # prepare_151 names these fields *_db_written
+                                        'date_file_written': dset.get('date_db_written', ds),
+                                        'time_file_written': dset.get('time_db_written', ts)})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80s\n' % dset['model_name'])
-- 
2.43.0


From 7ee2870bea3cb727e8d7e5d67fd141101acf2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 11/42] fix: write the beam record of all beam descriptors of
 set 2412

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..a968754 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -60,7 +60,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in {11, 21, 22, 23, 24}:
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
-- 
2.43.0


From 9f594f32583768f35933a19332fefe7cb6314266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 12/42] fix: elements of more than eight nodes in set 2412

---
 pyuff/datasets/dataset_2412.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index a968754..c91d961 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -67,8 +67,11 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
-                    fh.write('%10i' % ii)
+                # 8 nodes per record
+                for ii, node in enumerate(elem['nodes_nums']):
+                    if ii > 0 and ii % 8 == 0:
+                        fh.write('\n')
+                    fh.write('%10i' % node)
                 fh.write('\n')
         fh.write('%6i\n' % -1)
     except:
@@ -104,12 +107,16 @@ def _extract2412(block_data):
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
                 dict_tmp['beam_aftend_cross'] = int(split_data[i + 1][2])
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+2]]
-                i += 3
+                i += 2
             else:
                 # element is no rod and covers 2 lines
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
-                i += 2
+                i += 1
+            dict_tmp['nodes_nums'] = [int(e) for e in split_data[i]]
+            i += 1
+            # More than 8 nodes continue on the next record
+            while len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes'] and len(dict_tmp['nodes_nums']) % 8 == 0:
+                dict_tmp['nodes_nums'].extend([int(e) for e in split_data[i]])
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From 3d576399201f346bd3becad568c9a8ffe6e965df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 13/42] fix: columns of negative values in records 12 and 13 of
 set 2414

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From 5ab0e4ab7cb0fb3efbb12e9cde348a2008ae2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 14/42] fix: read double precision complex frequency responses
 of set 2414

---
 pyuff/datasets/dataset_2414.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..1ecb508 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -751,7 +751,7 @@ def _extract2414(block_data):
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
-            if dset['data_type'] == 5 :
+            if dset['data_type'] in (5, 6):
                 values = np.asarray([float(str) for str in split_data], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
-- 
2.43.0


From 8863a0157ef72094d4f351ef557fbea01346f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 15/42] fix: close a set 2414 of dataset location 5

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 1ecb508..332f7af 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From 1110d06d3b31650b0389b986e0d910d086e28da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 16/42] fix: more than six values per node or element in set
 2414

---
 pyuff/datasets/dataset_2414.py | 50 +++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 332f7af..cc05e9d 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -670,8 +670,10 @@ def _write2414(fh, dset):
             if dset['dataset_location'] == 1:
                 for index in range(dset['node_nums'].shape[0]):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
-                    for field in dset['data_at_node'][index]:
-                        # number of values unknown, so loop
+                    for ii, field in enumerate(dset['data_at_node'][index]):
+                        # number of values unknown, so loop; 6 values per record
+                        if ii > 0 and ii % 6 == 0:
+                            fh.write('\n')
                         fh.write('%13.5e' % (field))
                     fh.write('\n')
                 fh.write('%6i\n' % (-1))
@@ -680,8 +682,10 @@ def _write2414(fh, dset):
                 for index in range(dset['element_nums'].shape[0]):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
-                    for field in dset['data_at_element'][index]:
-                        # number of values in record15 unknown, so loop
+                    for ii, field in enumerate(dset['data_at_element'][index]):
+                        # number of values in record15 unknown, so loop; 6 values per record
+                        if ii > 0 and ii % 6 == 0:
+                            fh.write('\n')
                         fh.write('%13.5e' % (field))
                     fh.write('\n')
                 fh.write('%6i\n' % (-1))
@@ -708,6 +712,27 @@ def _write2414(fh, dset):
         raise Exception('Error writing data-set #2414')
 
 
+def _read_records_14_15(lines, n_values):
+    """
+    Read pairs of records 14 and 15 from the given lines; a full record 15 (6 values)
+    continues on the next line as long as there are less than n_values(record 14) values.
+    """
+    record14 = []
+    record15 = []
+    ii = 0
+    while ii < len(lines):
+        fields = lines[ii].split()
+        record14.append(fields)
+        values = [float(elem) for elem in lines[ii + 1].split()]
+        ii += 2
+        while 0 < len(values) < n_values(fields) and len(values) % 6 == 0:
+            values.extend([float(elem) for elem in lines[ii].split()])
+            ii += 1
+        # record 15 not always same number of fields, so a list of ndarray
+        record15.append(np.array(values, float))
+    return record14, record15
+
+
 def _extract2414(block_data):
     """Extract analysis data - data-set 2414."""
     dset = {'type': 2414}
@@ -789,19 +814,18 @@ def _extract2414(block_data):
             split_data = split_data.splitlines()
             if dset['dataset_location'] == 1:
                 # Data at nodes
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
-                # record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
-                dset['node_nums'] = np.array(record14[:,0].copy(), dtype=int)
+                n_values = dset['number_of_data_values_for_the_data_component']
+                if dset['data_type'] in (5, 6):
+                    n_values = 2 * n_values  # real/imag
+                record14, record15 = _read_records_14_15(split_data, lambda fields: n_values)
+                dset['node_nums'] = np.array([fields[0] for fields in record14], dtype=int)
                 dset['data_at_node'] = record15
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
-                ## record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
-                dset['element_nums'] = np.array(record14[:,0].copy(), dtype=int)
-                dset['NDVAL'] = np.array(record14[:,1].copy(), dtype=int)
+                record14, record15 = _read_records_14_15(split_data, lambda fields: int(fields[1]))
+                dset['element_nums'] = np.array([fields[0] for fields in record14], dtype=int)
+                dset['NDVAL'] = np.array([fields[1] for fields in record14], dtype=int)
                 dset['data_at_element'] = record15
 
             elif dset['dataset_location'] == 3:
-- 
2.43.0


From 93f74be25ac769cccf618b8a075bfd887dc2cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 17/42] fix: do not silently drop rotations of complex data
 when writing set 55

---
 pyuff/datasets/dataset_55.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..9bb69d5 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -399,6 +399,8 @@ def _write55(fh, dset):
             data_type = 5
         else:
             data_type = 2
+        if data_type == 5 and n_data_per_node == 6:
+            raise ValueError('Cannot handle 6 points per node and complex data when writing data-set #55')
         # Write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 55, ' '))
         fh.write('%-80s\n' % dset['id1'])
-- 
2.43.0


From d7f8cd51efb7bc6c818dd6ec845b7ea60960a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 18/42] fix: column width of record 1 of set 1858

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..1017d81 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From 855fd694fc1bc460a4a5770ab1920660e342380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 19/42] fix: write all groups and all entities of set 2429,
 read trailing empty groups

---
 pyuff/datasets/dataset_2429.py | 55 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..39ecdc3 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,36 +111,33 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
-            # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        # either a list of groups or the fields of a single group
+        groups = dset['groups'] if 'groups' in dset else [dset]
+        for group in groups:
+            group = _opt_fields(group, dict)
+            n_entities = len(group['entity_type_code'])
+
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                n_entities))
+            # Record 2
+            fh.write('%-40s\n' % (group['group_name']))
+
+            # Record 3-N
+            # 4 pairs per line
+            for i in range(n_entities):
+                fh.write('%10i%10i' % (group['entity_type_code'][i], group['entity_tag'][i]))
+                if i % 4 == 3 or i == n_entities - 1:
+                    fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
@@ -156,7 +153,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From bba8d2f4c9254e2c06eee9b2fc516b5451508f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 20/42] fix: temperature and contact set numbers of
 prepare_group

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 39ecdc3..bba2146 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -256,8 +256,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..40f96de 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From 82912b9ec4fbfe8b880332d00ef2c60141fceea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 21/42] fix: defaults of the active sets of the groups of set
 2467

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 40f96de..eeceabc 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 10ec0a4dedf3d5ea51aca817fa6061285b8b4a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 22/42] fix: check the leaf and component ids given to
 prepare_2467

---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index eeceabc..d4408d3 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -282,6 +282,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From a11a7ea1efb7eb0b05ac47bd1029bbe29ee24b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 23/42] fix: convert several sets 2412 to trace lines

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..703fd40 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,9 +131,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From 497c2ff1bcd7a53db4d7986bbb896c475f1804a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 24/42] fix: fix_58b on a file without a final line break

---
 pyuff/datasets/dataset_58.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 4522064..0f92f42 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1522,7 +1522,8 @@ def fix_58b(filename,fixed_filename=None):
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
+                    newline = lines[-1][-1:] if lines[-1][-1:] in (b'\n', b'\r') else b''
+                    prev_line += b'    -1' + newline  # Keep the newline character, if there is one
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
                 else:
-- 
2.43.0


From bb09fea05f0e4b81a74603e9c4d8b881e0ced148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 25/42] fix: recognise a padded delimiter line at the very end
 of the file

The blank-padded form was accepted only when at least one more byte followed
column 80, so the last set of a file without final line break was not found.
---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 6c59ac3..dec2edf 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -199,7 +199,7 @@ class UFF:
                     elif ind+6 < data_len and data[ind+6] in [10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
+                    elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
                     
-- 
2.43.0


From 7c75d6a7c5914059d31cc1bdf549e6a4684f0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 26/42] fix: read_sets() counts the sets after the automatic
 refresh

An object created before its file existed refreshed itself on reading, but
had already taken the old number of sets, so all sets read as none.
---
 pyuff/pyuff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index dec2edf..46e296b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -262,6 +262,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -269,11 +274,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From 1f9397b875bae3ecfa8f4ef0696c9412d1ab679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 27/42] fix: read blank-padded records of data-set 18

---
 pyuff/datasets/dataset_18.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..1e2a28d 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,8 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
-        rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
+        rec_31 = [float(line[i * 13:(i + 1) * 13]) for line in split_data[4::4] for i in range(6)]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
                                     np.array(rec_31[2::6]))).transpose()
@@ -105,8 +104,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
-        rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
+        rec_32 = [float(line[i * 13:(i + 1) * 13]) for line in split_data[5::4] for i in range(3)]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
                                         np.array(rec_32[2::3]))).transpose()
-- 
2.43.0


From b296f479792b9d6b8d4b44aef17134dd8c71fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 28/42] fix: read blank-padded records of data-set 55

---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 9bb69d5..9b085fd 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -506,7 +506,7 @@ def _extract55(block_data):
             # Body
         split_data = ''.join(split_data[10:])
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) if str[i*13:(i+1)*13].strip()] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
-- 
2.43.0


From 434274a1aff72f34864af75f8f189ad351072b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 29/42] fix: read a blank-padded last record of a double
 precision data-set 58

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 0f92f42..4fc013e 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1100,12 +1100,12 @@ def _extract58(block_data, header_only=False):
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20) if line[20 * i:20 * (i + 1)].strip()])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line) // 33) if line[33 * i:33 * (i + 1)].strip() for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From 41d6508e7727827bca274ff811155d6632a674ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 30/42] fix: read data-set 2420 with all documented fields of
 records 1 and 3

---
 pyuff/datasets/dataset_2420.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 66b4cc0..7ae66b7 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -82,13 +82,13 @@ def _extract2420(block_data):
     split_data = block_data.splitlines(True)
 
     # -- Get Record 1
-    dset['Part_UID'] = int(split_data[2])
+    dset['Part_UID'] = int(split_data[2][:10])
 
     # -- Get Record 2
     dset['Part_Name'] = split_data[3].rstrip()
 
     # -- Get Record 3
-    rec_3 = list(map(int, ''.join(split_data[4::6]).split()))
+    rec_3 = [int(field) for line in split_data[4::6] for field in line.split()[:3]]
     dset['CS_sys_labels'] = rec_3[::3]
     dset['CS_types'] = rec_3[1::3]
     dset['CS_colors'] = rec_3[2::3]
-- 
2.43.0


From fc158f0fdc428d02d32037887697094e4d27cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 31/42] fix: fix_58b keeps payload bytes that look like line
 breaks

---
 pyuff/datasets/dataset_58.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 4fc013e..1fc1479 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1516,12 +1516,18 @@ def fix_58b(filename,fixed_filename=None):
     else:
         try:
             lines = data.splitlines(keepends=True)
+            # Line break of the file; only one is removed before a moved '    -1', since
+            # the last bytes of binary data can look like line breaks, too
+            eol = lines[0][len(lines[0].rstrip(b'\r\n')):] if lines else b''
+
+            def without_eol(line):
+                return line[:-len(eol)] if eol and line.endswith(eol) else line
 
             # Fix 1: Adjust ending '    -1' line
             if len(lines) >= 1 and lines[-1].strip() == b'-1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
+                    prev_line = without_eol(lines[-2])
                     newline = lines[-1][-1:] if lines[-1][-1:] in (b'\n', b'\r') else b''
                     prev_line += b'    -1' + newline  # Keep the newline character, if there is one
                     lines[-2] = prev_line
@@ -1534,7 +1540,7 @@ def fix_58b(filename,fixed_filename=None):
             while i < len(lines) - 3:
                 if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
+                    data_line = without_eol(lines[i])  # Remove the newline
                     data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
                     lines[i] = data_line
                     del lines[i+1]  # Remove the now-empty line
-- 
2.43.0


From 38c9b0849fd31dd28242ddcf230228de85f553f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 32/42] fix: fix_58b only moves delimiter lines

---
 pyuff/datasets/dataset_58.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1fc1479..911fc91 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1523,8 +1523,11 @@ def fix_58b(filename,fixed_filename=None):
             def without_eol(line):
                 return line[:-len(eol)] if eol and line.endswith(eol) else line
 
+            def is_delimiter(line):
+                return line.rstrip() == b'    -1'
+
             # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
+            if len(lines) >= 1 and is_delimiter(lines[-1]):
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = without_eol(lines[-2])
@@ -1538,7 +1541,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if is_delimiter(lines[i+1]) and is_delimiter(lines[i+2]):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = without_eol(lines[i])  # Remove the newline
                     data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
-- 
2.43.0


From a0db37f95175694e6d83886e01599f44f6b406b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 33/42] fix: write infinities to single precision binary
 data-set 58

---
 pyuff/datasets/dataset_58.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 911fc91..c4be4a6 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -967,6 +967,10 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             # the payload goes through the handle that is already open, so that
             # the header written above is kept in both modes
             fh.flush()
+            if not is_double:
+                # infinities were replaced by the largest double, which is too large for single precision
+                data[data == np.finfo('d').max] = np.finfo('f').max
+                data[data == -np.finfo('d').max] = -np.finfo('f').max
             # write data, in the precision announced in the header
             fmt = ('<' if bo == 1 else '>') + ('d' if is_double else 'f')
             [fh.buffer.write(struct.pack(fmt, datai)) for datai in data]
-- 
2.43.0


From 38ba80cc27ba61729c43ba7b7e8b4b22e22265ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 34/42] fix: undecodable bytes keep the columns of their record

---
 pyuff/datasets/dataset_58.py | 4 ++--
 pyuff/pyuff.py               | 2 +-
 pyuff/tools.py               | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index c4be4a6..5650886 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1030,7 +1030,7 @@ def _extract58(block_data, header_only=False):
     dset = {'type': 58, 'binary': 0}
     try:
         binary = False
-        split_header = b''.join(block_data.splitlines(True)[:13]).decode('utf-8',  errors='replace').splitlines(True)
+        split_header = b''.join(block_data.splitlines(True)[:13]).decode('utf-8',  errors='pyuff_replace').splitlines(True)
         if len(split_header[1]) >= 7:
             if split_header[1][6].lower() == 'b':
                 # Read some addititional fields from the header section
@@ -1095,7 +1095,7 @@ def _extract58(block_data, header_only=False):
                     raise Exception('Potentially wrong data format (common with binary files from some commercial softwares). Try using pyuff.fix_58b() to fix your file. For more information, see https://github.com/ladisk/pyuff/issues/61')
             else:
                 values = []
-                split_data = block_data.decode('utf-8', errors='replace').splitlines(True)[13:]
+                split_data = block_data.decode('utf-8', errors='pyuff_replace').splitlines(True)[13:]
                 if (dset['ord_data_type'] == 2) or (dset['ord_data_type'] == 5):
                     for line in split_data[:-1]:  # '6E13.5'
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13)])
diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 46e296b..63de523 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -362,7 +362,7 @@ class UFF:
                 if self._set_types[int(n)] == 58:
                     block_data = fh.read(ei - si + 1)  # decoding is handled later in _extract58
                 else:
-                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
+                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='pyuff_replace')
             except:
                 fh.close()
                 raise Exception('Error reading data-set #: ' + int(n))
diff --git a/pyuff/tools.py b/pyuff/tools.py
index 703fd40..4f3db28 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -1,6 +1,15 @@
+import codecs
+
 import pyuff
 import numpy as np
 
+def _replace_undecodable(error):
+    """Error handler for decoding: one replacement character for each byte,
+    so that the fields which follow on the line stay in their columns."""
+    return '\ufffd' * (error.end - error.start), error.end
+
+codecs.register_error('pyuff_replace', _replace_undecodable)
+
 def _opt_fields(dict, fields_dict):
     """Sets the optional fields of the dict dictionary. 
     
-- 
2.43.0


From 304aa1fa0b90684f0bc4bd9680316254dcb7d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 35/42] fix: read negative values with three-digit exponents in
 data-sets 15 and 2414

---
 pyuff/datasets/dataset_15.py   |  5 ++---
 pyuff/datasets/dataset_2414.py | 13 ++++++-------
 pyuff/tools.py                 | 10 ++++++++++
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index 1f50908..e78c176 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -1,7 +1,7 @@
 from os import write
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _write_record, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _record_values, _write_record, check_dict_for_none
 
 def get_structure_15(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -62,8 +62,7 @@ def _extract15(block_data):
     try:
         # Body
         split_data = block_data.splitlines()
-        split_data = ''.join(split_data[2:]).split()
-        split_data = [float(_) for _ in split_data]
+        split_data = [_ for line in split_data[2:] for _ in _record_values(line, [10, 10, 10, 10, 13, 13, 13])]
 
         dset['node_nums'] = split_data[::7]
         dset['def_cs'] = split_data[1::7]
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index cc05e9d..d5fbb45 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math as math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _record_values, check_dict_for_none
 
 def get_structure_2414(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -723,10 +723,10 @@ def _read_records_14_15(lines, n_values):
     while ii < len(lines):
         fields = lines[ii].split()
         record14.append(fields)
-        values = [float(elem) for elem in lines[ii + 1].split()]
+        values = _record_values(lines[ii + 1], 6 * [13])
         ii += 2
         while 0 < len(values) < n_values(fields) and len(values) % 6 == 0:
-            values.extend([float(elem) for elem in lines[ii].split()])
+            values.extend(_record_values(lines[ii], 6 * [13]))
             ii += 1
         # record 15 not always same number of fields, so a list of ndarray
         record15.append(np.array(values, float))
@@ -772,13 +772,12 @@ def _extract2414(block_data):
                                                 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass', 
                                                 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass']))
 
-            split_data = ''.join(block_data.splitlines(True)[15:])
-            split_data = split_data.split()
+            split_data = block_data.splitlines()[15:]
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
             if dset['data_type'] in (5, 6):
-                values = np.asarray([float(str) for str in split_data], 'd')
+                values = np.asarray([value for line in split_data for value in _record_values(line, 6 * [13])], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
                 dset['x'] = values[1::n_skip].copy()+values[2::n_skip].copy()*1j
@@ -854,7 +853,7 @@ def _extract2414(block_data):
                     else:
                         numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
                     # a list of numpy array, since the number of lines is not fixed.
-                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
+                    dset['data_at_nodes_on_element'].append([np.array(_record_values(item, 6 * [13]), float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
                     lineIndex = lineIndex + 1 + numberOfLinesInRecord15
 
diff --git a/pyuff/tools.py b/pyuff/tools.py
index 4f3db28..d315fd7 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -92,6 +92,16 @@ def _parse_header_line(line, min_values, widths, types, names):
                 fields_out.update({key: 0.0})
     return fields_out
 
+def _record_values(line, widths):
+    """Returns the numbers of a record. They are separated by blanks or, where
+    values fill their columns, given by the widths of the columns."""
+    try:
+        return [float(field) for field in line.split()]
+    except ValueError:
+        ends = np.cumsum(widths)
+        fields = [line[end - width:end] for end, width in zip(ends, widths)]
+        return [float(field) for field in fields if field.strip()]
+
 def _write_record(fh, values, formats, multiline=False, fstring=True):
     """Write a record to the open file using the specified formats.
 
-- 
2.43.0


From 7ceeda69f0aa0ed3212b1e2809630dacf4389767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 36/42] fix: read complex data of set 2414 on elements with
 more than three values per record

---
 pyuff/datasets/dataset_2414.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d5fbb45..10812e9 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -715,7 +715,8 @@ def _write2414(fh, dset):
 def _read_records_14_15(lines, n_values):
     """
     Read pairs of records 14 and 15 from the given lines; a full record 15 (6 values)
-    continues on the next line as long as there are less than n_values(record 14) values.
+    continues on the next line as long as there are less than n_values(record 14) values
+    and the next line holds real numbers, too.
     """
     record14 = []
     record15 = []
@@ -725,7 +726,7 @@ def _read_records_14_15(lines, n_values):
         record14.append(fields)
         values = _record_values(lines[ii + 1], 6 * [13])
         ii += 2
-        while 0 < len(values) < n_values(fields) and len(values) % 6 == 0:
+        while 0 < len(values) < n_values(fields) and len(values) % 6 == 0 and '.' in ''.join(lines[ii:ii + 1]):
             values.extend(_record_values(lines[ii], 6 * [13]))
             ii += 1
         # record 15 not always same number of fields, so a list of ndarray
@@ -822,7 +823,8 @@ def _extract2414(block_data):
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
-                record14, record15 = _read_records_14_15(split_data, lambda fields: int(fields[1]))
+                parts = 2 if dset['data_type'] in (5, 6) else 1  # real/imag
+                record14, record15 = _read_records_14_15(split_data, lambda fields: parts * int(fields[1]))
                 dset['element_nums'] = np.array([fields[0] for fields in record14], dtype=int)
                 dset['NDVAL'] = np.array([fields[1] for fields in record14], dtype=int)
                 dset['data_at_element'] = record15
@@ -852,6 +854,12 @@ def _extract2414(block_data):
                         numberOfLinesInRecord15 = numberOfNodes * math.ceil(numberOfValuesPerNode / 6)
                     else:
                         numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
+                    if dset['data_type'] in (5, 6):
+                        # real/imag: up to twice as many lines, which all hold real numbers
+                        n_lines = (numberOfNodes if iEXP == 1 else 1) * math.ceil(2 * numberOfValuesPerNode / 6)
+                        lines = split_data[lineIndex + 1:lineIndex + 1 + n_lines]
+                        if len(lines) == n_lines and all('.' in line for line in lines):
+                            numberOfLinesInRecord15 = n_lines
                     # a list of numpy array, since the number of lines is not fixed.
                     dset['data_at_nodes_on_element'].append([np.array(_record_values(item, 6 * [13]), float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
-- 
2.43.0


From 1b2c8d003ebb87c693018f3ec656e4bc3641f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 37/42] fix: read neighbouring integers of ten digits, which
 fill their columns

---
 pyuff/datasets/dataset_15.py   |  2 +-
 pyuff/datasets/dataset_18.py   |  4 ++--
 pyuff/datasets/dataset_2411.py |  8 ++++----
 pyuff/datasets/dataset_2412.py | 21 +++++++++++----------
 pyuff/datasets/dataset_2420.py |  4 ++--
 pyuff/datasets/dataset_2429.py |  5 +++--
 pyuff/datasets/dataset_2467.py |  5 +++--
 pyuff/datasets/dataset_82.py   |  9 +++++----
 pyuff/tools.py                 | 23 ++++++++++++++++++-----
 9 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index e78c176..4bb09a9 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -62,7 +62,7 @@ def _extract15(block_data):
     try:
         # Body
         split_data = block_data.splitlines()
-        split_data = [_ for line in split_data[2:] for _ in _record_values(line, [10, 10, 10, 10, 13, 13, 13])]
+        split_data = [_ for line in split_data[2:] for _ in _record_values(line, [10, 10, 10, 10, 13, 13, 13], 7)]
 
         dset['node_nums'] = split_data[::7]
         dset['def_cs'] = split_data[1::7]
diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 1e2a28d..51f2622 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 
 def get_structure_18(raw=False):
@@ -80,7 +80,7 @@ def _extract18(block_data):
         split_data = block_data.splitlines()
 
         # -- Get Record 1
-        rec_1 = np.array(list(map(float, ''.join(split_data[2::4]).split())))
+        rec_1 = np.array([float(field) for line in split_data[2::4] for field in _integer_fields(line, 5)])
 
         dset['cs_num'] = rec_1[::5]
         dset['cs_type'] = rec_1[1::5]
diff --git a/pyuff/datasets/dataset_2411.py b/pyuff/datasets/dataset_2411.py
index 2728a11..de7bf09 100644
--- a/pyuff/datasets/dataset_2411.py
+++ b/pyuff/datasets/dataset_2411.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 def get_structure_2411(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -53,9 +53,9 @@ def _extract2411(block_data):
     dset = {'type': 2411}
     try:
         # Body
-        split_data = block_data.splitlines(True)  # Keep the line breaks!
-        split_data = ''.join(split_data[2:])  # ..as they are again needed
-        split_data = split_data.split()
+        split_data = block_data.splitlines()[2:]
+        # record 1 holds four integers, record 2 three reals
+        split_data = [_ for line in split_data for _ in (line.split() if '.' in line else _integer_fields(line, 4))]
         # replace to support D or d notation as an exponential notation (typically form Unigraphics IDEAS)
         values = np.asarray([float(str.replace("D", "E").replace("d", "E")) for str in split_data], 'd')
         dset['node_nums'] = values[::7].copy()
diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index c91d961..81ff8e2 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -1,7 +1,7 @@
 import numpy as np
 import itertools
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 def get_structure_2412(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -88,14 +88,13 @@ def _extract2412(block_data):
 
     # Read data
     try:
-        split_data = block_data.splitlines()
-        split_data = [a.split() for a in split_data][2:]
+        lines = block_data.splitlines()[2:]
 
         # Extract Records
         i = 0
-        while i < len(split_data):
+        while i < len(lines):
             dict_tmp = dict()
-            line = split_data[i]
+            line = _integer_fields(lines[i], 6)
             dict_tmp['element_nums'] = int(line[0])
             dict_tmp['fe_descriptor'] = int(line[1])
             dict_tmp['phys_table'] = int(line[2])
@@ -104,18 +103,20 @@ def _extract2412(block_data):
             dict_tmp['num_nodes'] = int(line[5])
             if dict_tmp['fe_descriptor'] in rods_dict:
                 # element is a rod and covers 3 lines
-                dict_tmp['beam_orientation'] = int(split_data[i+1][0])
-                dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
-                dict_tmp['beam_aftend_cross'] = int(split_data[i + 1][2])
+                line = _integer_fields(lines[i + 1], 3)
+                dict_tmp['beam_orientation'] = int(line[0])
+                dict_tmp['beam_foreend_cross'] = int(line[1])
+                dict_tmp['beam_aftend_cross'] = int(line[2])
                 i += 2
             else:
                 # element is no rod and covers 2 lines
                 i += 1
-            dict_tmp['nodes_nums'] = [int(e) for e in split_data[i]]
+            dict_tmp['nodes_nums'] = [int(e) for e in _integer_fields(lines[i], min(8, dict_tmp['num_nodes']))]
             i += 1
             # More than 8 nodes continue on the next record
             while len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes'] and len(dict_tmp['nodes_nums']) % 8 == 0:
-                dict_tmp['nodes_nums'].extend([int(e) for e in split_data[i]])
+                n_left = dict_tmp['num_nodes'] - len(dict_tmp['nodes_nums'])
+                dict_tmp['nodes_nums'].extend([int(e) for e in _integer_fields(lines[i], min(8, n_left))])
                 i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 7ae66b7..4b880f6 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 def get_structure_2420(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -88,7 +88,7 @@ def _extract2420(block_data):
     dset['Part_Name'] = split_data[3].rstrip()
 
     # -- Get Record 3
-    rec_3 = [int(field) for line in split_data[4::6] for field in line.split()[:3]]
+    rec_3 = [int(field) for line in split_data[4::6] for field in _integer_fields(line, 3)[:3]]
     dset['CS_sys_labels'] = rec_3[::3]
     dset['CS_types'] = rec_3[1::3]
     dset['CS_colors'] = rec_3[2::3]
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index bba2146..88bb947 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 def get_structure_2429(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -163,7 +163,8 @@ def _extract2429(block_data):
             # max 4 items per line, last line in group doesn't necessarily contain 4 elements
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
             # split all lines and then each line in separate integers. Put this in a ndarray
-            values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
+            n_fields = 2 * group['number_of_entities_in_group']
+            values = [[int(elem) for elem in _integer_fields(line, min(8, n_fields - 8 * ii))] for ii, line in enumerate(split_data[lineIndex + 2: indexLastLineForGroup])]
             # flatten the list and put in ndarray
             values = np.array([item for sublist in values for item in sublist], dtype=int)
             group['entity_type_code'] = np.array(values[::2].copy(), dtype=int)
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index d4408d3..741f6ad 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 def get_structure_2467(raw=False):
     """(source: https://github.com/victorsndvg/FEconv/blob/master/source/unv/module_dataset_2467.f90)"""
@@ -134,7 +134,8 @@ def _extract2467(block_data):
         group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
         # split all lines and then each line in separate integers. Put this in a ndarray
-        values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
+        n_fields = 4 * group['number_of_entities_in_group']
+        values = [[int(elem) for elem in _integer_fields(line, min(8, n_fields - 8 * ii))] for ii, line in enumerate(split_data[lineIndex + 2: indexLastLineForGroup])]
         # flatten the list and put in ndarray
         values = np.array([item for sublist in values for item in sublist], dtype=int)
         group['entity_type_code'] = np.array(values[::4].copy(), dtype=int)
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 1d49e83..678568f 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -1,7 +1,7 @@
 import numpy as np
 import os
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _integer_fields, _opt_fields, _parse_header_line, check_dict_for_none
 
 def get_structure_82(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -82,9 +82,10 @@ def _extract82(block_data):
         dset.update(
             _parse_header_line(split_data[2], 3, [10, 10, 10], [2, 2, 2], ['trace_num', 'n_nodes', 'color']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
-        split_data = ''.join(split_data[4:])
-        split_data = split_data.split()
-        nodes = np.asarray([float(str) for str in split_data])
+        nodes = []
+        for line in split_data[4:]:
+            nodes.extend(_integer_fields(line, min(8, dset['n_nodes'] - len(nodes))))
+        nodes = np.asarray([float(node) for node in nodes])
         # Zeros that only fill up the last record are no nodes
         if not np.any(nodes[dset['n_nodes']:]):
             nodes = nodes[:dset['n_nodes']]
diff --git a/pyuff/tools.py b/pyuff/tools.py
index d315fd7..2017221 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -92,15 +92,28 @@ def _parse_header_line(line, min_values, widths, types, names):
                 fields_out.update({key: 0.0})
     return fields_out
 
-def _record_values(line, widths):
-    """Returns the numbers of a record. They are separated by blanks or, where
-    values fill their columns, given by the widths of the columns."""
+def _record_values(line, widths, n=0):
+    """Returns the numbers (at least n) of a record. They are separated by
+    blanks or, where values fill their columns, given by the widths of the
+    columns."""
     try:
-        return [float(field) for field in line.split()]
+        values = [float(field) for field in line.split()]
     except ValueError:
+        values = None
+    if values is None or len(values) < n:
         ends = np.cumsum(widths)
         fields = [line[end - width:end] for end, width in zip(ends, widths)]
-        return [float(field) for field in fields if field.strip()]
+        values = [float(field) for field in fields if field.strip()]
+    return values
+
+def _integer_fields(line, n):
+    """Returns the n integer fields of a record with columns of width 10. They
+    are separated by blanks or, where numbers fill their columns, given by the
+    columns."""
+    fields = line.split()
+    if len(fields) < n:
+        fields = [field for si in range(0, len(line), 10) for field in line[si:si + 10].split()]
+    return fields
 
 def _write_record(fh, values, formats, multiline=False, fstring=True):
     """Write a record to the open file using the specified formats.
-- 
2.43.0


From 7347f35de8c49e9c4af84c2d1ae7b20c95b04d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 38/42] fix: appending to a file without a final line break
 destroyed its last set

---
 pyuff/pyuff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 63de523..2bc6dd6 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -448,6 +448,12 @@ class UFF:
             # handle nan or inf
             if 'data' in dset.keys():
                 dset['data'] = np.nan_to_num(dset['data'])
+            # the last line of the file may lack its line break
+            if n_before > 0 and set_type in [int(name) for name in _SUPPORTED_SETS if name.isdigit()]:
+                with open(self._filename, 'rb') as fh_end:
+                    fh_end.seek(n_before - 1)
+                    if fh_end.read(1) not in (b'\n', b'\r'):
+                        fh.write('\n')
 
             if set_type == 15:
                 _write15(fh, dset)
-- 
2.43.0


From ae77c9e95b81fd912d567ab0cae965ba48e3db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 39/42] fix: get_supported_sets returned the module's own list

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 2bc6dd6..aefeb7b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -117,7 +117,7 @@ class UFF:
 
     def get_supported_sets(self):
         """Returns a list of data-sets supported for reading and writing."""
-        return _SUPPORTED_SETS
+        return list(_SUPPORTED_SETS)
 
     def get_n_sets(self):
         """
-- 
2.43.0


From c08082625f4e18de75c15162b41116f86db57d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 40/42] fix: single-precision writing of set 58 with a data
 type of the other kind lost imaginary parts

---
 pyuff/datasets/dataset_58.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 5650886..868c497 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -882,10 +882,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             # real data
             if force_double:
                 dset['ord_data_type'] = 4
+            elif dset['ord_data_type'] in [5, 6]: # type of complex data
+                dset['ord_data_type'] = 2 if dset['ord_data_type'] == 5 else 4
         else:
             # complex data
             if force_double:
                 dset['ord_data_type'] = 6
+            elif dset['ord_data_type'] in [2, 4]: # type of real data
+                dset['ord_data_type'] = 5 if dset['ord_data_type'] == 2 else 6
 
         is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
 
-- 
2.43.0


From c883c2e0312ce810cba4d3c8753ca342841723bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 41/42] fix: set 55 lost imaginary parts when only some
 components are complex

---
 pyuff/datasets/dataset_55.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 9b085fd..bda8dab 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -395,7 +395,8 @@ def _write55(fh, dset):
             n_data_per_node = 6
         else:
             n_data_per_node = 3
-        if np.iscomplexobj(dset['r1']):
+        # one complex component makes the data complex
+        if any(np.iscomplexobj(dset['r%d' % (k + 1)]) for k in range(n_data_per_node)):
             data_type = 5
         else:
             data_type = 2
-- 
2.43.0


From 67180eb302668ce22f8dd4af71c676fd0a22da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:28 +0000
Subject: [PATCH 42/42] fix: changing the arrays of set types and formats a
 caller got changed how the sets were read

---
 pyuff/pyuff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index aefeb7b..ba10590 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -134,13 +134,13 @@ class UFF:
         """
         if not self._refreshed:
             self.refresh()
-        return self._set_types
+        return self._set_types.copy()
 
     def get_set_formats(self):
         """Returns an array of data-set formats: 0=ascii, 1=binary."""
         if not self._refreshed:
             self.refresh()
-        return self._set_formats
+        return self._set_formats.copy()
 
     def get_file_name(self):
         """Returns the file name (as a string) associated with the uff object."""
-- 
2.43.0

