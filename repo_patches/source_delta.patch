From 430ca592bfe1fed8fae494c58e75c7ff994637b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 01/41] fix: by_id slice ending in a gap between train IDs
 raised TypeError

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..1ca699c 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -84,7 +84,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return (np.asarray(train_ids) > tid).nonzero()[0][0]
 
 
 class DataChunk:
-- 
2.43.0


From f43280263c1f3131b510abbaf0fe3252a72cd046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 02/41] fix: by_id slice on a collection without trains raised
 IndexError

---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 1ca699c..10e33b3 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -64,6 +64,9 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     if tid is None:
         return None
 
+    if len(train_ids) == 0:
+        raise ValueError("No trains to select train ID {} from".format(tid))
+
     try:
         return train_ids.index(tid)
     except ValueError:
-- 
2.43.0


From 2312d289c3ce5341a9bf3be1143d34c2b127ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 03/41] fix: selecting the same train index twice gave
 duplicate train IDs

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..93853a0 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -967,7 +967,7 @@ class DataCollection:
                 )
         elif isinstance(tr, by_index) and isinstance(tr.value, (list, np.ndarray)):
             # Select a list of trains by index in this collection
-            new_train_ids = sorted([self.train_ids[i] for i in tr.value])
+            new_train_ids = sorted({self.train_ids[i] for i in tr.value})
         else:
             raise TypeError(type(train_range))
 
-- 
2.43.0


From 78846ca73c90348005c381ea6809eb13d545de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 04/41] fix: select({source: set()}) raised TypeError, dicts
 ignored earlier key selection

---
 karabo_data/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 93853a0..849124f 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -795,7 +795,13 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                current_keys = self.selection[source]
+                if not keys:
+                    res[source] = current_keys
+                elif current_keys is None:
+                    res[source] = set(keys)
+                else:
+                    res[source] = current_keys.intersection(keys)
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
-- 
2.43.0


From b8f320c75668b8dbafe9618aa8339942dd371f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 05/41] fix: raise the TypeError for unknown selection types

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 849124f..093baf2 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -810,7 +810,7 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
         return dict(res)
 
-- 
2.43.0


From 5bff19fa1493f5569990b53388da81ffe7efec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 06/41] fix: selecting all keys with '*' undid an earlier
 selection of keys

---
 karabo_data/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 093baf2..49c2364 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -831,7 +831,7 @@ class DataCollection:
                 continue
 
             if key_glob == '*':
-                matched[source] = None
+                matched[source] = self.selection[source]
             else:
                 r = ctrl_key_re if source in self.control_sources else key_re
                 keys = set(filter(r.match, self.keys_for_source(source)))
@@ -923,7 +923,9 @@ class DataCollection:
             if keys is None:
                 keys = self.keys_for_source(source)
 
-            selection[source] = keys - desel_keys
+            remaining_keys = keys - desel_keys
+            if remaining_keys:
+                selection[source] = remaining_keys
 
         files = [f for f in self.files
                  if f.all_sources.intersection(selection.keys())]
-- 
2.43.0


From d6ba4487134d33de1c0f1ef189f990dc4312c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 07/41] fix: reading from a run with a file containing no
 trains raised IndexError

---
 karabo_data/read_machinery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 10e33b3..4a83d71 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -126,6 +126,8 @@ def contiguous_regions(condition):
     """Finds contiguous True regions of the boolean array "condition". Returns
     a 2D array where the first column is the start index of the region and the
     second column is the end index."""
+    if len(condition) == 0:
+        return np.zeros((0, 2), dtype=np.intp)
 
     # Find the indicies of changes in "condition"
     d = np.diff(condition)
-- 
2.43.0


From 11f66f4653cbdbbe97df977eb2b3ce6865eaffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 08/41] fix: get_dask_array raised ZeroDivisionError where
 there was no data

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 49c2364..e1850b1 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -742,7 +742,8 @@ class DataCollection:
 
         chunks_darrs = []
         for chunk in chunks:
-            chunk_dim0 = int(np.sum(chunk.counts))
+            # Dask doesn't accept chunks with size 0
+            chunk_dim0 = max(int(np.sum(chunk.counts)), 1)
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
-- 
2.43.0


From 25207e886a3899a07716da5509f5f5ae3b882735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 09/41] fix: trains() included empty arrays for keys without
 data, unlike train_from_id()

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e1850b1..e1a64f1 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1291,6 +1291,9 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
+
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From ae05b8a6d9adc1c614a39a5abd054955ef848263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 10/41] fix: get_data_counts failed for control sources

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e1a64f1..684b021 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,7 +498,7 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                counts = np.ones(len(f.train_ids), dtype=np.uint64)
             else:
                 group = key.partition('.')[0]
                 _, counts = f.get_index(source, group)
-- 
2.43.0


From 5e80dacbe84c20b014baefe0abf034d5e8f8fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 11/41] fix: arrays without data had no train ID labels, so
 write() failed with KeyError

---
 karabo_data/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 684b021..3874932 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -707,9 +707,10 @@ class DataCollection:
         dims = ['trainId'] + extra_dims
 
         # Train ID index
-        coords = {}
-        if dest_dim0:
+        if chunks_trainids:
             coords = {'trainId': np.concatenate(chunks_trainids)}
+        else:
+            coords = {'trainId': np.zeros(0, dtype=np.uint64)}
 
         return xarray.DataArray(res, dims=dims, coords=coords)
 
-- 
2.43.0


From 6ee78aa58b7c45888471c2e862ae4a80a5e927e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 12/41] fix: write() failed if a control source had no data for
 some trains

---
 karabo_data/writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..2996bfb 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,7 +17,6 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
-- 
2.43.0


From b376f85636982e990ff82bfd238c88ccdd270968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 13/41] fix: control data was read by train position, ignoring
 the index

Files written by write() or write_virtual() have no entries for trains in which
a control source has no data. Reading these returned data of other trains.
---
 karabo_data/reader.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 3874932..b19c075 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,14 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            first, count = firsts[pos], counts[pos]
+            if not count:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][first]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -498,7 +507,7 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(len(f.train_ids), dtype=np.uint64)
+                _, counts = f.get_index(source, '')
             else:
                 group = key.partition('.')[0]
                 _, counts = f.get_index(source, group)
@@ -540,8 +549,10 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                _, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1276,10 +1287,12 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if counts[pos]:
+                    source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From 946fcb4ac20650fd55da0f0dca3b57eff343fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 14/41] fix: get_series & get_data_counts raised IndexError for
 files without data

---
 karabo_data/reader.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index b19c075..bc507d4 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -513,7 +513,11 @@ class DataCollection:
                 _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files without any trains don't matter, unless there's nothing else
+        seq_series = [s for s in seq_series if len(s)] or seq_series
+        ser = pd.concat(sorted(
+            seq_series, key=lambda s: s.index[0] if len(s) else 0
+        ))
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
@@ -565,7 +569,9 @@ class DataCollection:
 
                 index = pd.Index(trainids, name='trainId')
                 data = f.file[data_path][:]
-                if not index.is_unique:
+                if len(index) == 0:
+                    data = data[:0].reshape(0)
+                elif not index.is_unique:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
                     pulse_id = pulse_id[: len(index), 0]
                     index = pd.MultiIndex.from_arrays(
@@ -580,7 +586,11 @@ class DataCollection:
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files without any entries don't matter, unless there's nothing else
+        seq_series = [s for s in seq_series if len(s)] or seq_series
+        ser = pd.concat(sorted(
+            seq_series, key=lambda s: s.index[0] if len(s) else 0
+        ))
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
-- 
2.43.0


From ea492b28342be820a9402cf72b56d805631cc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 15/41] fix: get_array raised ZeroDivisionError for an empty
 region of interest

---
 karabo_data/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index bc507d4..9e2b49f 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -719,8 +719,9 @@ class DataCollection:
                 self._expand_trainids(chunk.counts, chunk.train_ids)
             )
 
-            slices = (chunk.slice,) + roi
-            chunk.dataset.read_direct(res[dest_slice], source_sel=slices)
+            if res.size:  # h5py can't read 0 elements like this
+                slices = (chunk.slice,) + roi
+                chunk.dataset.read_direct(res[dest_slice], source_sel=slices)
 
         # Dimension labels
         if extra_dims is None:
-- 
2.43.0


From df8a1c15e239f49346fb2c833e6b814eac759cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 16/41] fix: virtual files of data opened by relative path
 referred to missing files

The file names were stored relative to the working directory, but HDF5 resolves
them relative to the virtual file. The data then read as fill values.
---
 karabo_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 9e2b49f..4e05fa0 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -76,7 +76,9 @@ class FileAccess:
     _format_version = None
 
     def __init__(self, filename, _cache_info=None):
-        self.filename = filename
+        # Virtual datasets store this path, so it must not be relative to the
+        # current working directory.
+        self.filename = osp.abspath(filename)
 
         if _cache_info:
             self.train_ids = _cache_info['train_ids']
-- 
2.43.0


From 67686a617f00a0592faacb450489aefa372403a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 17/41] fix: atomic_dump left its temporary file behind if
 replacing the target failed

---
 karabo_data/run_files_map.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..d68857e 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -23,12 +23,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
-- 
2.43.0


From f3d2ada33cdbd80f13856beedb0ac4ec5b852ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 18/41] fix: a run could not be opened if its cache file was
 unreadable or not text

Note that mkstemp() creates the cache file readable only for its owner, so
other users opening the run got a PermissionError.
---
 karabo_data/run_files_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index d68857e..443a27f 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -88,7 +88,8 @@ class RunFilesMap:
                 self.cache_file = path
                 log.debug("Loaded cached files map from %s", path)
                 break
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (OSError, ValueError):
+                # Missing, not readable for us, or not (valid) JSON
                 pass
 
         for info in loaded_data:
-- 
2.43.0


From 72427515e9e4093821de2af7d8ec87cf82214c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 19/41] fix: a run could not be opened if writing its cache
 failed, e.g. on a full disk

---
 karabo_data/run_files_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 443a27f..05556d6 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -128,8 +128,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences OS errors (e.g. no permission, disk
+        full) from writing the cache file.
         """
         need_save = False
 
@@ -168,7 +168,7 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError:
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From a4d4488fdc4ecb7d7b5bed050582399dd6d9c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 20/41] fix: detector get_array failed if a module's file
 lacked some of the trains

It assumed that every module's file has all train IDs between the first and the
last one.
---
 karabo_data/components.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..be39a47 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -230,20 +230,20 @@ class MPxDetectorBase:
             firsts, counts = f.get_index(source, group)
 
             for chunk_tids in self.train_id_chunks:
-                if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
+                # The file may not have all of these trains
+                overlap = (f.train_ids >= chunk_tids[0]) & (f.train_ids <= chunk_tids[-1])
+                train_idxs = np.nonzero(overlap)[0]
+                if train_idxs.size == 0:
                     # No overlap
                     continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
+                first_train_idx, last_train_idx = train_idxs[0], train_idxs[-1]
                 chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
                 chunk_counts = counts[first_train_idx : last_train_idx + 1]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
+                    f.train_ids[first_train_idx : last_train_idx + 1],
                     chunk_counts.astype(np.intp),
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
-- 
2.43.0


From ae1e085be2fbd77d4eb96ea86b6e18a74d6d393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 21/41] fix: negative pulse numbers were accepted, selecting
 nothing

The check came after converting to unsigned integers, so it never applied.
---
 karabo_data/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index be39a47..6836a14 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -64,9 +64,9 @@ def _check_pulse_selection(pulses):
 
     # Convert everything except slices to numpy arrays
     elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
+        val = np.array([val])
     else:
-        val = np.asarray(val, dtype=np.uint64)
+        val = np.asarray(val)
 
     if (val < 0).any():
         if isinstance(pulses, by_id):
@@ -74,7 +74,7 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    return type(pulses)(val.astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 492459b53a40eaeabee01e835ac7dcf683a75181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 22/41] fix: selecting pulses in arbitrary order by index gave
 data of other pulses

---
 karabo_data/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 6836a14..b19a5e5 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -74,7 +74,8 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val.astype(np.uint64))
+    # h5py needs increasing positions without repeats
+    return type(pulses)(np.unique(val.astype(np.uint64)))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 56e958be6bbb4d8b51cdf7ce1a253c156c526434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 23/41] fix: detector data failed if one of the modules had no
 data for the selected trains

---
 karabo_data/components.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index b19a5e5..8e02b64 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -321,6 +321,8 @@ class MPxDetectorBase:
         arrays = []
         modnos = []
         for modno, source in sorted(self.modno_to_source.items()):
+            if source not in self.data.instrument_sources:
+                continue  # No file of this module has any of the trains
             # At present, all the per-pulse data is stored in the 'image' key.
             # If that changes, this check will need to change as well.
             if key.startswith('image.'):
@@ -329,7 +331,11 @@ class MPxDetectorBase:
                 arrays.append(self.data.get_array(source, key))
             modnos.append(modno)
 
-        return xarray.concat(arrays, pd.Index(modnos, name='module'))
+        res = xarray.concat(arrays, pd.Index(modnos, name='module'))
+        if len(modnos) < len(self.modno_to_source):
+            # Missing values for modules without data
+            res = res.reindex(module=sorted(self.modno_to_source))
+        return res
 
     def trains(self, pulses=by_index[:]):
         """Iterate over trains for detector data.
@@ -515,6 +521,10 @@ class MPxDetectorTrainIterator:
         }
 
     def __iter__(self):
+        data_sources = self.data.data.instrument_sources
+        if self.require_all and not data_sources.issuperset(self.data.source_to_modno):
+            return  # One of the modules has no data for any of the trains
+
         for tid in self.data.train_ids:
             tid = int(tid)  # Convert numpy int to regular Python int
             if self.require_all and self.data.data._check_data_missing(tid):
-- 
2.43.0


From 3a5d813dc824c7f7def029a19858e1fa734bd73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 24/41] fix: writing a virtual CXI file failed if one module
 had no data for the selected trains

---
 karabo_data/write_cxi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/write_cxi.py b/karabo_data/write_cxi.py
index 048bc7e..dd7d631 100644
--- a/karabo_data/write_cxi.py
+++ b/karabo_data/write_cxi.py
@@ -117,7 +117,9 @@ class VirtualCXIWriter:
             chunk_tids = chunk_tids[n_match:]
 
     def collect_data(self):
-        src = next(iter(self.detdata.source_to_modno))
+        # Modules without data for any of these trains have no files here
+        src = next(s for s in self.detdata.source_to_modno
+                   if s in self.data.instrument_sources)
         h5file = self.data._source_index[src][0].file
         image_grp = h5file['INSTRUMENT'][src]['image']
 
-- 
2.43.0


From d0830711cd5a4ce7431f1403e6bca3183549ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 25/41] fix: slicing a StackView lost its stack axis

The result always had the modules at axis -3, whichever axis was stacked and
however many dimensions were left.
---
 karabo_data/stacking.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..34f787a 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -194,8 +194,12 @@ class StackView:
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
+        # Indexing with an integer drops a dimension
+        new_stack_axis = sum(
+            isinstance(s, slice) for s in mod_slices[:self._stack_axis]
+        )
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, stack_axis=new_stack_axis)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From f41d2cc6cf13e0a1f1c6bcb5025e91bf3f580eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 26/41] fix: StackView accepted module indexes before the start

---
 karabo_data/stacking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 34f787a..6504f6a 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -168,6 +168,8 @@ class StackView:
         mod_slices = slices[:self._stack_axis] + slices[self._stack_axis + 1:]
 
         if isinstance(modno, int):
+            if modno < -self._nmodules:
+                raise IndexError(modno)
             if modno < 0:
                 modno += self._nmodules
             return self._get_single_mod(modno, mod_slices)
-- 
2.43.0


From b101b9656bfa79509963e8a2dec732f2b7a7c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 27/41] fix: missing modules of signed integer data were not
 filled with 0 by default

The default fill value was nan for all types; converting this to an integer is
undefined, and typically gives the lowest value for signed types.
---
 karabo_data/stacking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6504f6a..7e44438 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -53,7 +53,7 @@ def stack_data(train, data, axis=-3, xcept=()):
     return np.stack(ordered_arrays, axis=axis)
 
 
-def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
+def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=None,
                         real_array=True):
     """Stack data from detector modules in a train.
 
@@ -117,6 +117,8 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if fillvalue is None:
+        fillvalue = np.nan if np.issubdtype(dtype, np.inexact) else 0
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From f51e93de86db5cb27353f6cd7807c41d5c06e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 28/41] fix: AGIPD geometry from quadrant positions in other
 units had wrong pixel sizes

---
 karabo_data/geometry2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..167f215 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -654,8 +654,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From a4eae58d7073eb3ad837d007f64378ff2e7ab6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 29/41] fix: data_coords_to_positions failed or overflowed for
 some integer types of module_no

---
 karabo_data/geometry2/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 167f215..e99b241 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -577,7 +577,7 @@ class DetectorGeometryBase:
         tilenos, tile_ss, tile_fs = self._module_coords_to_tile(slow_scan, fast_scan)
 
         # The indexes of the relevant tiles in the arrays assembled above
-        all_tiles_ix = (module_no * self.n_tiles_per_module) + tilenos
+        all_tiles_ix = (module_no.astype(np.intp) * self.n_tiles_per_module) + tilenos
 
         # Select the relevant tile geometry for each set of coordinates
         coords_tile_corner = tiles_corner_pos[all_tiles_ix]
-- 
2.43.0


From 9c128e1d6fde7912a186050271b617358d8e40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 30/41] fix: CrystFEL geometry files with very small vector
 components could not be read

---
 karabo_data/geometry2/crystfel_fmt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..5df2627 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,11 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    # The format doesn't allow exponents here (1e-05x)
+    x, y, z = [np.format_float_positional(v, trim='0', sign=True) for v in vec]
+    s = '{}x {}y'.format(x, y)
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(z)
     return s
 
 
-- 
2.43.0


From 62558fe93eb292e6424afab5433bb67f244f2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 31/41] fix: coffset in CrystFEL geometry files is in metres,
 not pixels

---
 karabo_data/geometry2/__init__.py     | 3 ++-
 karabo_data/geometry2/crystfel_fmt.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e99b241..7eb1e05 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -33,7 +33,8 @@ class GeometryFragment:
     @classmethod
     def from_panel_dict(cls, d):
         res = d['res']
-        corner_pos = np.array([d['cnx'], d['cny'], d['coffset']]) / res
+        # cnx & cny are in pixels, but coffset is in metres
+        corner_pos = np.array([d['cnx'] / res, d['cny'] / res, d['coffset']])
         ss_vec = np.array([d['ssx'], d['ssy'], d['ssz']]) / res
         fs_vec = np.array([d['fsx'], d['fsy'], d['fsz']]) / res
         ss_pixels = d['max_ss'] - d['min_ss'] + 1
diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index 5df2627..02ff2d0 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -75,7 +75,7 @@ def frag_to_crystfel(fragment, p, a, ss_slice, fs_slice, dims, pixel_size):
         fs_vec=_crystfel_format_vec(fragment.fs_vec/ pixel_size),
         corner_x=c[0],
         corner_y=c[1],
-        coffset=c[2],
+        coffset=fragment.corner_pos[2],  # in metres, unlike corner_x & corner_y
     )
 
 def write_crystfel_geom(self, filename, *,
-- 
2.43.0


From 291071e27172cdc14d63f47cd3bedaa43164e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 32/41] fix: validating a run without an up to date cache
 raised TypeError

---
 karabo_data/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..7c5375c 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -191,6 +191,8 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From 215aefe54bb39eb4c296c1d5dd6136406e3029ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 33/41] fix: validating a file without trains raised IndexError

---
 karabo_data/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 7c5375c..3e5c7a1 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -120,6 +120,9 @@ class FileValidator:
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
+    if firsts.size == 0:
+        return probs
+
     if firsts[0] != 0:
         record("Index doesn't start at 0")
 
-- 
2.43.0


From 4da52915c37466540c5bac195fe268f11736ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 34/41] fix: validation failed with an exception if an index
 had the wrong shape

---
 karabo_data/validation.py | 72 +++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 3e5c7a1..160f294 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -72,50 +72,54 @@ class FileValidator:
 
     def check_indices(self):
         for src in self.file.instrument_sources:
-            src_groups = set()
+            group_datasets = {}
             for key in self.file.get_keys(src):
                 ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
                 group = key.split('.', 1)[0]
-                src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
-                data_dim0 = self.file.file[ds_path].shape[0]
-                if np.any((first + count) > data_dim0):
-                    max_end = (first + count).max()
-                    self.record(
-                        'Index referring to data ({}) outside dataset ({})'.format(
-                            max_end, data_dim0
-                        ),
-                        dataset=ds_path,
-                    )
-
-            for src, group in src_groups:
-                record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
-                first, count = self.file.get_index(src, group)
+                group_datasets.setdefault(group, []).append(ds_path)
 
-                if (first.ndim != 1) or (count.ndim != 1):
-                    record(
-                        "Index first / count are not 1D",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
+            for group, ds_paths in group_datasets.items():
+                record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
+                if not self.check_index_shape(src, group, record):
                     continue
 
-                if first.shape != count.shape:
-                    record(
-                        "Index first & count have different number of entries",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
+                first, count = self.file.get_index(src, group)
 
-                if first.shape != self.file.train_ids.shape:
-                    record(
-                        "Index has wrong number of entries",
-                        index_shape=first.shape,
-                        trainids_shape=self.file.train_ids.shape,
-                    )
+                for ds_path in ds_paths:
+                    data_dim0 = self.file.file[ds_path].shape[0]
+                    if np.any((first + count) > data_dim0):
+                        max_end = (first + count).max()
+                        self.record(
+                            'Index referring to data ({}) outside dataset ({})'.format(
+                                max_end, data_dim0
+                            ),
+                            dataset=ds_path,
+                        )
 
                 check_index_contiguous(first, count, record)
 
+    def check_index_shape(self, source, group, record):
+        """Check the datasets of an index have one entry for each train"""
+        ix_group = self.file.file['INDEX/{}/{}'.format(source, group)]
+        names = ('first', 'count') if 'count' in ix_group else ('first', 'last', 'status')
+        shapes = {name + '_shape': ix_group[name].shape for name in names}
+
+        if any(len(s) != 1 for s in shapes.values()):
+            record("Index {} are not 1D".format(' / '.join(names)), **shapes)
+            return False
+
+        # Trailing entries without a train ID are ignored
+        ntrains = len(self.file.train_ids)
+        if any(s[0] < ntrains for s in shapes.values()):
+            record(
+                "Index has wrong number of entries",
+                trainids_shape=self.file.train_ids.shape,
+                **shapes
+            )
+            return False
+
+        return True
+
 
 def check_index_contiguous(firsts, counts, record):
     probs = []
-- 
2.43.0


From 033d2fb2755d4b13609a40860d221b027c2bb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 35/41] fix: validation missed problems in an index with very
 large numbers

---
 karabo_data/validation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 160f294..333e27f 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -85,10 +85,12 @@ class FileValidator:
 
                 first, count = self.file.get_index(src, group)
 
+                # Python ints, as the sum of invalid entries can overflow
+                max_end = max((int(f) + int(c) for f, c in zip(first, count)), default=0)
+
                 for ds_path in ds_paths:
                     data_dim0 = self.file.file[ds_path].shape[0]
-                    if np.any((first + count) > data_dim0):
-                        max_end = (first + count).max()
+                    if max_end > data_dim0:
                         self.record(
                             'Index referring to data ({}) outside dataset ({})'.format(
                                 max_end, data_dim0
@@ -130,16 +132,19 @@ def check_index_contiguous(firsts, counts, record):
     if firsts[0] != 0:
         record("Index doesn't start at 0")
 
-    gaps = firsts[1:].astype(np.int64) - (firsts + counts)[:-1]
+    # Compare unsigned integers: mixing them with signed integers makes floats,
+    # which cannot represent large numbers. The sum can overflow.
+    ends = (firsts + counts)[:-1]
+    overflow = ends < firsts[:-1]
 
-    gap_ixs = (gaps > 0).nonzero()[0]
+    gap_ixs = ((firsts[1:] > ends) & ~overflow).nonzero()[0]
     if gap_ixs.size > 0:
         pos = gap_ixs[0]
         record("Gaps ({}) in index, e.g. at {} ({} + {} < {})".format(
             gap_ixs.size, pos, firsts[pos], counts[pos], firsts[pos+1]
         ))
 
-    overlap_ixs = (gaps < 0).nonzero()[0]
+    overlap_ixs = ((firsts[1:] < ends) | overflow).nonzero()[0]
     if overlap_ixs.size > 0:
         pos = overlap_ixs[0]
         record("Overlaps ({}) in index, e.g. at {} ({} + {} > {})".format(
-- 
2.43.0


From 1b2021a2297bb8c8ddcb85090ca8fd7c26d856c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 36/41] fix: numpy booleans, or numpy numbers in metadata,
 could not be streamed

---
 karabo_data/export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..b6eb63e 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -25,6 +25,13 @@ from .reader import RunDirectory, H5File
 __all__ = ['ZMQStreamer', 'serve_files']
 
 
+def _numpy_to_native(value):
+    """Convert numpy scalars, including bool, to the Python type for msgpack"""
+    if isinstance(value, (np.number, np.bool_)):
+        return value.item()
+    raise TypeError("can not serialize {!r} object".format(type(value).__name__))
+
+
 class REPInterface(Thread):
     def __init__(self, context, port, buffer):
         super(REPInterface, self).__init__()
@@ -99,7 +106,7 @@ class ZMQStreamer:
                 use_bin_type=True, default=msgpack_numpy.encode
             ).pack
         else:
-            self.pack = msgpack.Packer(use_bin_type=True).pack
+            self.pack = msgpack.Packer(use_bin_type=True, default=_numpy_to_native).pack
         self.protocol_version = protocol_version
         self.dummy_timestamps = dummy_timestamps
         self._buffer = Queue(maxsize=maxlen)
-- 
2.43.0


From 8181c9fc91a1d2a16c1d0ff5117fc67c02e49d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 37/41] fix: feeding the streamer modified the metadata, or
 lost it in protocol 1.0

---
 karabo_data/export.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index b6eb63e..e3ca5c8 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -126,8 +126,11 @@ class ZMQStreamer:
             self._interface = None
 
     def _serialize(self, data, metadata=None):
-        if not metadata:
-            metadata = {src: v.get('metadata', {}) for src, v in data.items()}
+        # Copy it, so that adding timestamps doesn't change the data fed in
+        metadata = {
+            src: dict((metadata or {}).get(src) or v.get('metadata', {}))
+            for src, v in data.items()
+        }
 
         if self.dummy_timestamps:
             ts = time()
@@ -143,7 +146,11 @@ class ZMQStreamer:
                     metadata[src].update(update_dummy)
 
         if self.protocol_version == '1.0':
-            return [self.pack(data)]
+            # There's no separate metadata in this version of the protocol
+            return [self.pack({
+                src: dict(v, metadata=metadata[src]) if metadata[src] else v
+                for src, v in data.items()
+            })]
 
         msg = []
         for src, props in sorted(data.items()):
-- 
2.43.0


From d0e51364779b652488108896edd55207d77e206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 38/41] fix: serve_files did not send the last trains of a run

---
 karabo_data/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index e3ca5c8..b5d5d8e 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -45,7 +45,8 @@ class REPInterface(Thread):
         try:
             interface.bind('tcp://*:{}'.format(self.port))
 
-            while not self.stopped():
+            # Once stopped, still send what was already fed
+            while not (self.stopped() and self.buffer.empty()):
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
-- 
2.43.0


From 3d49a6196cc79ef026317c7e4620dc7cfb41fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 39/41] fix: karabo-bridge-serve-files ignored --source and
 --key

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index b5d5d8e..545cef3 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -275,4 +275,4 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(args.path, args.port, source_glob=args.source, key_glob=args.key)
-- 
2.43.0


From 12fced8c4f468fc9253078596b67e551ee7791a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 40/41] fix: union() included keys not selected in any of the
 collections

---
 karabo_data/reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 4e05fa0..7032f23 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -807,8 +807,11 @@ class DataCollection:
             train_ids.update(other.train_ids)
 
         train_ids = sorted(train_ids)
-        selection = union_selections([self.selection] +
-                                     [o.selection for o in others])
+        # Selecting trains can leave out sources which are still in .selection
+        selection = union_selections([
+            {source: c.selection[source] for source in c.all_sources}
+            for c in (self,) + others
+        ])
 
         return DataCollection(files, selection=selection, train_ids=train_ids)
 
-- 
2.43.0


From 0a74cb906252080e05830f204d4c0b1f30b6518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 41/41] fix: get_series dropped data of files with several
 entries per train next to others with one

---
 karabo_data/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 7032f23..b7ea6ac 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -564,8 +564,13 @@ class DataCollection:
 
         elif source in self.instrument_sources:
             data_path = "/INSTRUMENT/{}/{}".format(source, key.replace('.', '/'))
+            group = key.partition('.')[0]
+            # The index must be of the same kind for all files
+            use_pulse_id = any(
+                (f.get_index(source, group)[1] > 1).any()
+                for f in self._source_index[source]
+            )
             for f in self._source_index[source]:
-                group = key.partition('.')[0]
                 firsts, counts = f.get_index(source, group)
                 trainids = self._expand_trainids(counts, f.train_ids)
 
@@ -573,7 +578,7 @@ class DataCollection:
                 data = f.file[data_path][:]
                 if len(index) == 0:
                     data = data[:0].reshape(0)
-                elif not index.is_unique:
+                elif use_pulse_id:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
                     pulse_id = pulse_id[: len(index), 0]
                     index = pd.MultiIndex.from_arrays(
-- 
2.43.0

