From eeb09008a0a385809af8f031bea523def9470bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 01/23] fix: repartition() lost data if the input was not C
 contiguous

The receive buffer inherited the memory layout of the input, so flattening
it made a copy and the received elements were discarded.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..e6a0a6e 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -244,7 +244,7 @@ def repartition(arr, ndesired, comm=None):
 
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
-    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype)
+    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
     my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 67efd482f9d6b4475be60485572526fda38e792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 02/23] fix: fetch_elements() returned garbage for non C
 contiguous arrays

Received elements were written to a flattened copy of the output and lost if
the input array (or the supplied result array) was not C contiguous.
---
 python/virgo/mpi/parallel_sort.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index e6a0a6e..a5f2b60 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -330,10 +330,13 @@ def fetch_elements(arr, index, result=None, comm=None):
         # Will return result, so allocate storage
         shape = list(arr.shape)
         shape[0] = index.shape[0]
-        values_recv = np.empty_like(arr, shape=shape)
-    else:
+        values_recv = np.empty_like(arr, shape=shape, order="C")
+    elif result.flags.c_contiguous:
         # Will put result in supplied array
         values_recv = result
+    else:
+        # Need to receive into a contiguous buffer first
+        values_recv = np.empty_like(result, order="C")
 
     my_alltoallv(values.reshape((-1,)),      nvalues*recv_count, nvalues*recv_displ,
                  values_recv.reshape((-1,)), nvalues*send_count, nvalues*send_displ,
@@ -345,6 +348,8 @@ def fetch_elements(arr, index, result=None, comm=None):
 
     if result is None:
         return values_recv
+    elif values_recv is not result:
+        result[...] = values_recv
 
 
 
-- 
2.43.0


From 5a481f561c655e95a93080b93fedf2a568f1881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 03/23] fix: reduce_elements() applied garbage if updates were
 not C contiguous

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index a5f2b60..bf59f60 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1074,7 +1074,7 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Exchange updates
     recv_shape = (sum(recv_count),) + updates.shape[1:]
-    updates_recv = np.empty_like(updates, shape=recv_shape)
+    updates_recv = np.empty_like(updates, shape=recv_shape, order="C")
     my_alltoallv(updates.reshape((-1,)),      nvalues*send_count, nvalues*send_displ,
                  updates_recv.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 2e96b764a3b68330b09e9491883d04955d227580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 04/23] fix: parallel_bincount() failed with 64 bit unsigned
 input

The number of bins became floating point because numpy promotes a mix of
uint64 and signed integers to float64.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index bf59f60..96e486c 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1125,7 +1125,7 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
         result_dtype = index_dtype
 
     # Find the maximum value in x
-    x_max = np.amax(x) if len(x) > 0 else 0
+    x_max = int(np.amax(x)) if len(x) > 0 else 0
     x_max = comm.allreduce(x_max, op=MPI.MAX)
     total_nr_bins = x_max+1
 
-- 
2.43.0


From b0c5bc56e6e392ef92fb10e4aa204cf0b3fa4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 05/23] fix: read_fof_group() dropped a particle at the start
 of a file

last_in_snap is one past the last particle in the file, so we must not stop
if the last particle in the group is the first one in the next file.
---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..3cba7ba 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -306,7 +306,7 @@ class GroupOrderedSnapshot():
                             result[itype][dataset].append(snap["PartType%d/%s" % (itype, dataset)][first_to_read:last_to_read+1,...])
 
             # Check if we're done
-            if np.all(last_in_snap >= last_in_fof):
+            if np.all(last_in_snap > last_in_fof):
                 break
 
             # Advance to next file
-- 
2.43.0


From f7ba780af441ddec92de6fe5bc64ca56c845c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 06/23] fix: L-Gadget2 group_ids files could not be opened

The header field checked for byte order was not the one which was defined.
---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From 625e4cbf910c653ed29b99586e7bf5b4aefd2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 07/23] fix: reading a region of a Millennium snapshot raised a
 TypeError

np.indices() and the Peano-Hilbert key calculation need integer coordinates.
---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..1985d65 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 5fdadca3ba9f4e29a364b1ead8b585c49dcf0e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 08/23] fix: sanity check of Millennium snapshots raised a
 TypeError

The number of bits per dimension must be an integer.
---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 1985d65..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From ef377a763cc9ac5cd7219d507e10249f9af7fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 09/23] fix: MXXL sub_tab files could not be opened

The L-Gadget3 reader does not accept the P-Gadget3 format flags.
---
 python/virgo/sims/mxxl.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..cefe910 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -32,13 +32,9 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
     """
     def __init__(self, fname, 
                  SO_VEL_DISPERSIONS=True,
-                 SO_BAR_INFO=False,
-                 WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From 6a47239af9f58f6dc38741d56f104b51397183c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 10/23] fix: default mode used to write binary files was not
 valid

Use exclusive creation, which is what "w-" means in h5py.
---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..f89f097 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -502,7 +502,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From 60e02bdddb3e96b11c745060976f2b923addf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 11/23] fix: structured types in files with opposite byte order
 were not byteswapped

Structured types have no byte order of their own so the fields need to be checked.
---
 python/virgo/util/read_binary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index f89f097..a73b41c 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -37,6 +37,10 @@ def need_byteswap(data_endian, dtype):
 
     Some types don't have byte order, in which case we return False.
     """
+    if dtype.fields is not None:
+        # For structured types check the byte order of each field
+        return any(need_byteswap(data_endian, field[0]) for field in dtype.fields.values())
+    dtype = dtype.base
     if dtype.byteorder == "|":
         return False # Byte order not applicable for this type
     if data_endian not in ("<",">","="):
-- 
2.43.0


From 03be4788b87250fa6501ce64d0853bfdefeb9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 12/23] fix: attributes attached to datasets ignored the byte
 order of the file

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index a73b41c..b70dc77 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -180,6 +180,7 @@ class BinaryGroup(Mapping):
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
                 self.datasets[head].attrs._items[tail] = new_block
+                new_block.endian = endian
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
                 if head not in self.groups:
-- 
2.43.0


From 197ee77054de54fabe1dc8e15be0cd1c6b07987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 13/23] fix: files with zero size datasets could not be
 converted to HDF5

Chunk dimensions must be positive.
---
 python/virgo/util/read_binary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index b70dc77..1858ddc 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -224,13 +224,13 @@ class BinaryGroup(Mapping):
             src_dset = self.datasets[dataset_name]
 
             # Determine chunk size for output
-            if gzip > 0:
+            if gzip > 0 and src_dset.size > 0:
                 chunks = tuple([s if s < chunk_size else chunk_size for s in src_dset.shape])
             else:
                 chunks = None
                 
             # Write the dataset
-            if len(src_dset.shape) >= 1:
+            if len(src_dset.shape) >= 1 and src_dset.size > 0:
                 # Array dataset
                 h5group.create_dataset(dataset_name, data=src_dset[...],
                                        shuffle=shuffle,
@@ -238,7 +238,7 @@ class BinaryGroup(Mapping):
                                        compression_opts=compression_opts,
                                        chunks=chunks)
             else:
-                # Scalar dataset
+                # Scalar (or empty) dataset, which can't be chunked
                 h5group.create_dataset(dataset_name, data=src_dset[...])
 
             # Copy attributes
-- 
2.43.0


From d2f06172877daceab95f9283480da34aedea08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 14/23] fix: attributes of the root group were lost when
 converting to HDF5

---
 python/virgo/util/read_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 1858ddc..8ef60aa 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -214,6 +214,9 @@ class BinaryGroup(Mapping):
         if h5group is None:
             h5group = h5py.File(filename, mode)
             created = True
+            # Copy any attributes of the root group
+            for attr_name in self.attrs.keys():
+                h5group.attrs[attr_name] = self.attrs[attr_name]
         else:
             created = False
 
-- 
2.43.0


From 795a4ad4ec1ef851ccbe84807a15c5ce5672f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 15/23] fix: fields with a conversion were not left unchanged
 by PartialFormatter

---
 python/virgo/util/partial_formatter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/virgo/util/partial_formatter.py b/python/virgo/util/partial_formatter.py
index f09183f..23febb9 100644
--- a/python/virgo/util/partial_formatter.py
+++ b/python/virgo/util/partial_formatter.py
@@ -44,6 +44,13 @@ class PartialFormatter(string.Formatter):
             # Otherwise return the value
             return kwargs[key]
 
+    def convert_field(self, value, conversion):
+        if isinstance(value, FormatKey) and conversion is not None:
+            # Not substituting this one, so keep the conversion for later
+            return FormatKey(f"{value.key}!{conversion}")
+        else:
+            return super().convert_field(value, conversion)
+
     def format_field(self, value, format_spec):
         if isinstance(value, FormatKey):
             # We're not substituting anything in here
-- 
2.43.0


From 11e3c1b1a7444fdedd8736038d41e732e789264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 16/23] fix: missing import in make_dtrees_table.py

---
 python/virgo/database/make_dtrees_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..2356e0c 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
-- 
2.43.0


From 7f7c493e773dfd7168cac4a79c9dfe52b7ceaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 17/23] fix: Velociraptor properties files could not be opened
 with numpy >= 1.24

The np.int alias of the builtin int type no longer exists.
---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..965f382 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    int)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From ca60795d441903aa582f1ff60d4e189964daeef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 18/23] fix: collective I/O hung or failed if one row exceeds
 the buffer size

Need to transfer at least one element per iteration. Also avoid dividing by
zero if the dataset has a dimension with zero size.
---
 python/virgo/mpi/parallel_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..a9dd80b 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -139,7 +139,7 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        buffer_size_elements = max(1, buffer_size // max(1, element_size))
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
@@ -235,7 +235,7 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    max_elements = max(1, buffer_size // max(1, element_size))
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From 8eac37eb6f54f18c09efc0a09471774af87e1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 19/23] fix: repartition() failed if the input was a strided 1D
 array

MPI can only send contiguous buffers.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 96e486c..8d76856 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -245,7 +245,7 @@ def repartition(arr, ndesired, comm=None):
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
     arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
-    my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
+    my_alltoallv(np.ascontiguousarray(arr).reshape((-1,)), nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
 
-- 
2.43.0


From 9a813e4c81d8c8819304dda2ddace5e524becf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 20/23] fix: scalars of structured type were garbage in files
 with opposite byte order

---
 python/virgo/util/read_binary.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 8ef60aa..c49dcbd 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -352,10 +352,15 @@ class BinaryDataset:
         # Extract the requested part of the array, copying to make
         # sure we don't return a view of the memory map because
         # we might need to close the file.
+        array = array[key]
         if need_byteswap(self.endian, self.dtype):
-            array = array[key].byteswap()
+            if isinstance(array, np.void):
+                # Method byteswap() doesn't work on structured scalars
+                array = np.asarray(array).byteswap()[()]
+            else:
+                array = array.byteswap()
         else:
-            array = array[key].copy()
+            array = array.copy()
         # Return the result
         return array
 
-- 
2.43.0


From 069f94b91405e64f3202ec7060db34e6bcac8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 21/23] fix: toggle_byteswap() did not update existing blocks

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index c49dcbd..7f61e0b 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -506,9 +506,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From 3d6949ddc11b66e696e17e82be44554344979490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 22/23] fix: datasets of array types could not be converted to
 HDF5

---
 python/virgo/util/read_binary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 7f61e0b..ad4de9d 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -226,23 +226,26 @@ class BinaryGroup(Mapping):
             # Dataset to write out
             src_dset = self.datasets[dataset_name]
 
+            # Read the data. Note that array types add dimensions to the shape.
+            data = src_dset[...]
+
             # Determine chunk size for output
-            if gzip > 0 and src_dset.size > 0:
-                chunks = tuple([s if s < chunk_size else chunk_size for s in src_dset.shape])
+            if gzip > 0 and data.size > 0:
+                chunks = tuple([s if s < chunk_size else chunk_size for s in data.shape])
             else:
                 chunks = None
                 
             # Write the dataset
-            if len(src_dset.shape) >= 1 and src_dset.size > 0:
+            if len(data.shape) >= 1 and data.size > 0:
                 # Array dataset
-                h5group.create_dataset(dataset_name, data=src_dset[...],
+                h5group.create_dataset(dataset_name, data=data,
                                        shuffle=shuffle,
                                        compression=compression,
                                        compression_opts=compression_opts,
                                        chunks=chunks)
             else:
                 # Scalar (or empty) dataset, which can't be chunked
-                h5group.create_dataset(dataset_name, data=src_dset[...])
+                h5group.create_dataset(dataset_name, data=data)
 
             # Copy attributes
             for attr_name in self.datasets[dataset_name].attrs.keys():
-- 
2.43.0


From 772271247c3ece08afe3964877a23b72336ad140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 23/23] fix: collective_read() hung for types other than plain
 numbers if ranks had different numbers of transfers

h5py's high level interface skips reads of zero rows, so that a rank with
nothing left to read did not take part in the collective read.
---
 python/virgo/mpi/parallel_hdf5.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index a9dd80b..b351ad1 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -149,14 +149,31 @@ def collective_read(dataset, comm, buffer_size=None):
         shape = list(dataset.shape)
         shape[0] = num_on_task[comm_rank]
         data = np.ndarray(shape, dtype=dataset.dtype)
+        # We need to use the low level interface here because the h5py high
+        # level interface omits zero sized reads, which causes a hang in
+        # collective mode if a rank has nothing left to read.
+        dset_id = dataset.id
+        file_space = dset_id.get_space()
+        mem_space = h5py.h5s.create_simple(tuple(shape))
+        prop_list = h5py.h5p.create(h5py.h5p.DATASET_XFER)
+        prop_list.set_dxpl_mpio(h5py.h5fd.MPIO_COLLECTIVE)
         # Read the data
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
         nr_left = num_on_task[comm_rank]
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
-            with dataset.collective:
-                data[offset_in_mem:offset_in_mem+length,...] = dataset[offset_in_file:offset_in_file+length,...]
+            # Select the region to read in the file and in memory
+            if length > 0 and element_size > 0:
+                start = (offset_in_file,)+(0,)*(len(shape)-1)
+                count = (length,)+tuple(shape[1:])
+                file_space.select_hyperslab(start, count)
+                start = (offset_in_mem,)+(0,)*(len(shape)-1)
+                mem_space.select_hyperslab(start, count)
+            else:
+                file_space.select_none()
+                mem_space.select_none()
+            dset_id.read(mem_space, file_space, data, dxpl=prop_list)
             offset_in_mem += length
             offset_in_file += length
             nr_left -= length
-- 
2.43.0

