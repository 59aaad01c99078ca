From 89a7885bb0791db69d77dabc060b02701961b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 01/45] fix: keep integer ids integral in records of in-memory
 datasets

values(), select_one() and the random record generator of the in-memory dataset upcast integer users, items and
internal ids to floats whenever another column was float (item 10 came back as 10.0).
---
 DRecPy/Dataset/mem_dataset.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..52d139d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -92,11 +92,12 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         df_columns = [col for col in self.columns if col != 'rid']
         col_idxs = {col: df_columns.index(col) for col in columns if col != 'rid'}
+        row = df[df_columns].iloc[:1].astype(object).values[0]  # as objects, so that ids are not upcast to floats
         if to_list is True:
-            record = [df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]
+            record = [row[col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]
             return record[0] if len(record) == 1 else record
         else:
-            return {col: df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns}
+            return {col: row[col_idxs[col]] if col != 'rid' else df.index[0] for col in columns}
 
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -122,7 +123,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             if len(tmp_df) == 0: continue
 
             chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)
-            record = {k: v for k, v in zip(df_columns, tmp_df.iloc[chosen_idx, :])}
+            row = tmp_df[df_columns].iloc[chosen_idx:chosen_idx + 1].astype(object).values[0]
+            record = {k: v for k, v in zip(df_columns, row)}
             record['rid'] = tmp_df.index[chosen_idx]
             if record['uid'] is not None: record['uid'] = int(record['uid'])
             if record['iid'] is not None: record['iid'] = int(record['iid'])
@@ -245,11 +247,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         df_columns = [col for col in self.columns if col != 'rid']
         col_idxs = {col: df_columns.index(col) for col in columns if col != 'rid'}
         if to_list is True:
-            for row, rid in zip(self._df[df_columns].values, self._df.index):
+            for row, rid in zip(self._df[df_columns].astype(object).values, self._df.index):
                 record = [row[col_idxs[col]] if col != 'rid' else rid for col in columns]
                 yield record[0] if len(record) == 1 else record
         else:
-            for row, rid in zip(self._df[df_columns].values, self._df.index):
+            for row, rid in zip(self._df[df_columns].astype(object).values, self._df.index):
                 yield {col: row[col_idxs[col]] if col != 'rid' else rid for col in columns}
 
     def drop(self, record_ids, copy=True, keep=False):
-- 
2.43.0


From 5f824fb115e68ade445bb5b9c1c75506f772589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 02/45] fix: do not modify the column list passed by the caller

unique() and save() of the database dataset appended/removed columns on the list given as argument.
---
 DRecPy/Dataset/dataset_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index c4f1539..8797297 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -345,7 +345,7 @@ class InteractionDatasetABC(ABC):
         for c in columns:
             assert c in self.columns, f'Unexpected column "{c}".'
 
-        return columns
+        return copy(columns)  # never hand out the caller's list
 
     def _log(self, msg):
         if not self.verbose: return
-- 
2.43.0


From 9d2e6c62f137acc5605676b5ae6d4a7208cb6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 03/45] fix: unique() and count_unique() over all columns of a
 database dataset

The record id was part of the compared columns by default, so nothing was ever considered a duplicate
(the in-memory dataset ignores it).
---
 DRecPy/Dataset/db_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..c19a11a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -239,9 +239,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # make sure to always maintain rid on DatabaseInteractionsDataset instances
         new_cols = ','.join(columns)
+        group_cols = ','.join([col for col in columns if col != 'rid'] or columns)  # rid is distinct on every record
         new_state = f'SELECT {new_cols} FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
             f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
-            f'GROUP BY {new_cols})'
+            f'GROUP BY {group_cols})'
         if 'rid' not in columns:
             new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
                 f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
@@ -253,6 +254,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def count_unique(self, columns=None):
         self._record_interaction()
+        if columns is None: columns = [col for col in self.columns if col != 'rid']  # rid is distinct on every record
         columns = self._handle_columns(columns)
 
         c = self._open_cursor()
-- 
2.43.0


From d4d7814679b8ce8fb8077a03b615a8c8f68c0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 04/45] fix: support housekeeping and id removal on projected
 database datasets

Datasets returned by unique() lack some of the import columns: optimising their storage failed with
'Missing "item" column', and removing internal ids mislabelled the values of a pending state query.
---
 DRecPy/Dataset/db_dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c19a11a..e7cb45a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -493,6 +493,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             # no need to remove from db, since it doesnt slow down - removing projected columns is enough
             self.columns.remove('uid')
             self.columns.remove('iid')
+            if self._state_query != '':  # keep the columns of the state query in line with self.columns
+                self._state_query = f'SELECT {",".join(self.columns)} FROM ({self._state_query}) WHERE 1'
 
     def apply(self, column, function):
         self._validate_column(column)
@@ -659,6 +661,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._log('Trying to load data from file, using auxiliary database...')
 
+        for req_col in ['rid', 'user', 'item', 'interaction']:
+            assert req_col in self.columns, f'Missing "{req_col}" column.'
+
         # select delimiter
         orig_delimiter = delimiter
         new_delimiter = orig_delimiter
@@ -909,11 +914,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             list: 'TEXT'
         }
 
-        required_cols = ['rid', 'user', 'item', 'interaction']
-
-        for req_col in required_cols:
-            assert req_col in self.columns, f'Missing "{req_col}" column.'
-
         create_sql_statement = f'CREATE TABLE {table_name} (' \
             'rid INTEGER PRIMARY KEY,' \
             'uid INTEGER,' \
-- 
2.43.0


From beb3a8def157de790be51f11c19baf876c40a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 05/45] fix: close abandoned value iterators of database
 datasets at once

A half-read iterator referenced itself through closures, so it stayed open until
the next cyclic garbage collection and blocked storage optimisation and writes.
---
 DRecPy/Dataset/db_dataset.py | 67 +++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index e7cb45a..daf4663 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -15,6 +15,40 @@ from os.path import expanduser
 from scipy.sparse import csr_matrix
 
 
+class ValueGenerator:
+    """Iterator over the records of a cursor. It holds no reference cycles, so that an abandoned iterator is closed as
+    soon as it's not referenced anymore, instead of staying open until the next garbage collection."""
+
+    def __init__(self, cursor, open_value_generators, row_to_record_fn, columns, to_list):
+        self.cursor = cursor
+        self.open_value_generators = open_value_generators
+        self.row_to_record_fn = row_to_record_fn
+        self.columns = columns
+        self.to_list = to_list
+        open_value_generators.add(cursor)
+
+    def __iter__(self):
+        return self
+
+    def __next__(self):
+        row = self.cursor.fetchone() if self.cursor in self.open_value_generators else None
+        if row is None:
+            self.close()
+            raise StopIteration
+        return self.row_to_record_fn(row, self.columns, self.to_list)
+
+    def __del__(self):
+        self.close()
+
+    def close(self):
+        if self.cursor in self.open_value_generators:
+            self.open_value_generators.discard(self.cursor)
+            try:
+                self.cursor.close()
+            except Exception:
+                pass
+
+
 class DatabaseInteractionDataset(InteractionDatasetABC):
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
@@ -278,37 +312,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         return c.fetchone()[0]
 
     def values(self, columns=None, to_list=False):
-        class ValueGenerator:
-            def __init__(self, open_value_generators, row_to_record_fn):
-                self.open_value_generators = open_value_generators
-                self.row_to_record_fn = row_to_record_fn
-                self.iter = self.__iter__()
-                self.removed_gen = False
-                open_value_generators.add(c)
-
-            def __iter__(self):
-                for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list)
-
-                self.removed_gen = True
-                self.open_value_generators.remove(c)
-                c.close()
-
-            def __next__(self):
-                return next(self.iter)
-
-            def __del__(self):
-                if not self.removed_gen:
-                    self.open_value_generators.remove(c)
-                    self.removed_gen = True
-                    try:
-                        c.close()
-                    except Exception:
-                        pass
-
-            def close(self):
-                self.__del__()
-
         self._record_interaction()
         columns = self._handle_columns(columns)
 
@@ -316,7 +319,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c = self._open_cursor()
         c.execute(curr_state_query)
 
-        return ValueGenerator(self._open_value_generators, self._from_row_to_record)
+        return ValueGenerator(c, self._open_value_generators, self._from_row_to_record, columns, to_list)
 
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
-- 
2.43.0


From ae2a58dbba276fb938bb7ee27b0b4b515cf54ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:56 +0000
Subject: [PATCH 06/45] fix: allow writing to a database dataset while its
 value iterators are open

Ids could not be assigned (or were assigned to the wrong table) and transformations failed
when an iterator over the same database was half-read; such iterators now read their
remaining rows first. Random record generators don't leave half-read cursors behind.
---
 DRecPy/Dataset/db_dataset.py | 65 ++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index daf4663..ceb5651 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -5,6 +5,7 @@ from .file_utils import unregister_temp_file
 import sqlite3 as sql
 from copy import copy as shallowcopy
 import csv
+import weakref
 import random
 from tqdm import tqdm
 from os import remove
@@ -19,19 +20,24 @@ class ValueGenerator:
     """Iterator over the records of a cursor. It holds no reference cycles, so that an abandoned iterator is closed as
     soon as it's not referenced anymore, instead of staying open until the next garbage collection."""
 
-    def __init__(self, cursor, open_value_generators, row_to_record_fn, columns, to_list):
+    def __init__(self, cursor, db_path, open_value_generators, row_to_record_fn, columns, to_list):
         self.cursor = cursor
+        self.db_path = db_path
+        self.rows = None  # remaining rows, once detached from the database
         self.open_value_generators = open_value_generators
         self.row_to_record_fn = row_to_record_fn
         self.columns = columns
         self.to_list = to_list
-        open_value_generators.add(cursor)
+        open_value_generators.add(self)
 
     def __iter__(self):
         return self
 
     def __next__(self):
-        row = self.cursor.fetchone() if self.cursor in self.open_value_generators else None
+        if self.rows is not None:
+            row = next(self.rows, None)
+        else:
+            row = self.cursor.fetchone() if self in self.open_value_generators else None
         if row is None:
             self.close()
             raise StopIteration
@@ -40,17 +46,23 @@ class ValueGenerator:
     def __del__(self):
         self.close()
 
+    def detach(self):
+        """Reads the remaining rows, so that iterating does not require the database anymore."""
+        self.rows = iter(self.cursor.fetchall())
+        self.open_value_generators.discard(self)
+        self.cursor.close()
+
     def close(self):
-        if self.cursor in self.open_value_generators:
-            self.open_value_generators.discard(self.cursor)
-            try:
-                self.cursor.close()
-            except Exception:
-                pass
+        self.rows = iter(())
+        self.open_value_generators.discard(self)
+        try:
+            self.cursor.close()
+        except Exception:
+            pass
 
 
 class DatabaseInteractionDataset(InteractionDatasetABC):
-    _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
+    _open_value_generators = weakref.WeakSet()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
@@ -215,18 +227,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
             if count == 0: continue
 
-            chosen_record = None
             chosen_idx = rng.randint(0, count - 1)
 
-            c.execute(new_state)
-            curr_idx = 0
-            for row in c:
-                if curr_idx == chosen_idx:
-                    chosen_record = {k: v for k, v in zip(self.columns, row)}
-                    break
-                curr_idx += 1
-
-            if chosen_record is not None: yield chosen_record
+            # read every row, since a half-read cursor would keep the database locked for other instances
+            rows = c.execute(new_state).fetchall()
+            yield {k: v for k, v in zip(self.columns, rows[chosen_idx])}
 
     def null_interaction_pair_generator(self, interaction_threshold=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -319,7 +324,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c = self._open_cursor()
         c.execute(curr_state_query)
 
-        return ValueGenerator(c, self._open_value_generators, self._from_row_to_record, columns, to_list)
+        return ValueGenerator(c, self._db_path, self._open_value_generators, self._from_row_to_record, columns, to_list)
 
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
@@ -447,6 +452,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     f.write('\n')
 
     def assign_internal_ids(self):
+        self._detach_value_generators()
         self._optimize_states()
         self._conn.commit()
 
@@ -513,6 +519,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             new_col_type = type(test_record[column])
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
+            self._detach_value_generators()
             if new_col_type == self._col_types[column]:  # type does not change
                 self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
 
@@ -592,7 +599,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0:
+                if not self._has_open_value_generators():
                     self._open_cursor().execute(f'DROP TABLE {self._active_table}')
 
         if self._conn is not None:
@@ -796,9 +803,17 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         interactions exceeds self._opt2_n_direct_interactions_threshold, optimize the states if possible."""
         self._n_direct_interactions += 1
         if self._n_direct_interactions >= self._opt2_n_direct_interactions_threshold \
-                and len(self._open_value_generators) == 0:
+                and not self._has_open_value_generators():
             self._optimize_states()
 
+    def _has_open_value_generators(self):
+        return any(gen.db_path == self._db_path for gen in list(self._open_value_generators))
+
+    def _detach_value_generators(self):
+        """Detaches all open value generators from the current database, so that it can be written to."""
+        for gen in list(self._open_value_generators):
+            if gen.db_path == self._db_path: gen.detach()
+
     def _update_state(self, new_state):
         self._queries_wo_optimize += 1
 
@@ -810,7 +825,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and self._queries_wo_optimize >= self._opt_n_query_threshold \
                 and self._n_rows / self._n_rows_before_opt < self._opt_ratio_threshold \
                 and self._n_rows_before_opt - self._n_rows >= self._opt_n_rows_threshold \
-                and len(self._open_value_generators) == 0:
+                and not self._has_open_value_generators():
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
@@ -827,7 +842,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_direct_interactions = 0
 
         if self._state_query == '' and skip_empty_query: return  # nothing to optimize
-        if len(self._open_value_generators) > 0: return  # can't optimize due to value generators being read
+        if self._has_open_value_generators(): return  # can't optimize due to value generators being read
 
         self._log('Optimizing state...')
 
-- 
2.43.0


From df89ba1b37d121534bcf48e08e84e7df5abee2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 07/45] fix: always build valid and unique table and file names
 for database datasets

str(random.random()) is in exponent notation for small values, which is not a valid table name,
and drawing from the global generator disturbed the caller's random state.
---
 DRecPy/Dataset/db_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ceb5651..3dd082c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -6,6 +6,7 @@ import sqlite3 as sql
 from copy import copy as shallowcopy
 import csv
 import weakref
+from uuid import uuid4
 import random
 from tqdm import tqdm
 from os import remove
@@ -542,7 +543,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 cur_read.execute(self._build_new_state())
 
                 self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{str(random.random()).split(".")[1]}'
+                new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
                 self._build_table(c, new_table_name)
 
@@ -694,7 +695,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -856,7 +857,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
-            red_table = f'interactions_{str(random.random()).split(".")[1]}'
+            red_table = f'interactions_{uuid4().hex}'
 
             self._build_table(c, table_name=red_table)
 
-- 
2.43.0


From 1273045829d279b7f37be56c9a4d0e98ae1042fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 08/45] fix: support any text value in dataset queries

Values with commas or spaces could not be queried, values with quotes or equal to a column name
were misread by database datasets, text ids were ordered by internal id once these were assigned,
and integers above 2^53 were compared as floats by in-memory datasets.
---
 DRecPy/Dataset/dataset_abc.py | 16 ++++++++++++++++
 DRecPy/Dataset/db_dataset.py  |  8 +++-----
 DRecPy/Dataset/mem_dataset.py | 18 ++++++++++--------
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index 8797297..8404581 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -347,6 +347,22 @@ class InteractionDatasetABC(ABC):
 
         return copy(columns)  # never hand out the caller's list
 
+    @staticmethod
+    def _split_query(query):
+        """Splits a query by its commas, except for the ones that are part of a quoted value."""
+        segments, quote, escaped = [''], None, False
+        for char in str(query):
+            if quote is None and char == ',':
+                segments.append('')
+                continue
+            if quote is None:
+                if char in '"\'': quote = char
+            elif escaped: escaped = False
+            elif char == '\\': escaped = True
+            elif char == quote: quote = None
+            segments[-1] += char
+        return [segment.strip() for segment in segments]
+
     def _log(self, msg):
         if not self.verbose: return
         print(f'[{self.__class__.__name__}] {msg}')
diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3dd082c..996b9ca 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -739,13 +739,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         return str
 
     def _parse_query(self, query):
-        query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query)
         query_conditions = []
 
         for segment in query_segments:
-            segment = segment.strip()
-            column, operator, value = segment.split(" ")
+            column, operator, value = segment.split(" ", 2)
             assert column is not None or operator is not None or value is not None, \
                 'Invalid get query, must be in form: column1 operator1 value1, column2 operator2 value2, ...'
             assert column in self.columns, 'Unexpected column "{c}".'.format(c=column)
@@ -764,7 +762,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    value = "'" + value.replace("'", "''") + "'"
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 52d139d..4e1f638 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -385,15 +385,13 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
     """ Auxiliary methods """
     def _apply_query(self, query, in_place=True):
-        query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query)
 
         condition_vector = None
 
         for idx, segment in enumerate(query_segments):
-            segment = segment.strip()
             try:
-                column, operator, value = segment.split(" ")
+                column, operator, value = segment.split(" ", 2)
             except ValueError:
                 raise Exception(
                     f'Query segment failed to be parsed. Check if there are no missing spaces or invalid characters.'
@@ -413,7 +411,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             if column not in ['iid', 'uid', 'rid']:
                 try:
                     if 'float' in col_dtype or 'int' in col_dtype:
-                        value = float(value)
+                        try:
+                            value = int(value)  # floats can't represent large integers
+                        except ValueError:
+                            value = float(value)
                     elif 'obj' in col_dtype:
                         value = eval(value)
                 except ValueError:
@@ -424,11 +425,12 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             else:
                 value = int(value)
 
-            # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
+            # use internal ids aux structures to speed up search (internal ids don't keep the order of the raw ids)
+            use_internal_ids = self.has_internal_ids and 'int' not in col_dtype and operator in ['==', '!=']
+            if column == 'user' and use_internal_ids and 'uid' in self.columns:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and use_internal_ids and 'iid' in self.columns:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From 5a6ca31732d979013c9401f928d2da97a5051c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 09/45] fix: support text ids in splits, evaluation processes
 and list sampler

The raw ids were placed unquoted in the dataset queries.
---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 6 +++---
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 4 ++--
 DRecPy/Evaluation/Splits/leave_k_out.py                  | 4 ++--
 DRecPy/Evaluation/Splits/matrix_split.py                 | 2 +-
 DRecPy/Sampler/list_sampler.py                           | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..bf0833d 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -164,7 +164,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +194,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {user!r}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +220,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..fc1bf11 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -138,7 +138,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -163,7 +163,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..68ad46c 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,7 +98,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +106,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..7bfc31a 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,7 +86,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..2732c30 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -94,7 +94,7 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {chosen_col_group!r}' for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
-- 
2.43.0


From fba538c894feca03074b3c7242d2cf31e8926754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 10/45] fix: apply transforms every record of a dataset or none

A function failing midway (or returning an unsupported type for a later record) left database
datasets partially transformed, and turning the interactions of an in-memory dataset
into text failed after having changed it when its interaction matrix was cached.
---
 DRecPy/Dataset/db_dataset.py  | 93 +++++++++++++++++------------------
 DRecPy/Dataset/mem_dataset.py | 14 +++---
 2 files changed, 52 insertions(+), 55 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 996b9ca..d294259 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -512,6 +512,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         supported_types = [int, float, str]
         if column in read_only_columns: raise Exception(f'Column "{column}" is read-only.')
 
+        prev_col_type = self._col_types[column]
+        new_table_name = None
         try:
             value_gen = self.values(columns=[column])
             test_record = next(value_gen)
@@ -521,62 +523,57 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
             self._detach_value_generators()
-            if new_col_type == self._col_types[column]:  # type does not change
-                self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
-
-                cur_read = self._open_cursor()
-                cur_updt = self._open_cursor()
-                cur_updt.execute('BEGIN')
-
-                cur_read.execute(self._build_new_state())
-                _iter = cur_read
-                if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
-                for row in _iter:
-                    record = self._from_row_to_record(row, [column, 'rid'])
-                    cur_updt.execute(f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?',
-                                     (function(record[column]), record['rid']))
-
-                cur_updt.execute("END")
-            else:
-                # type changes, require table structure change
-                cur_read = self._open_cursor()
-                cur_read.execute(self._build_new_state())
-
-                self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{uuid4().hex}'
-                c = self._open_cursor()
-                self._build_table(c, new_table_name)
-
-                cols = ','.join(self.columns)
-                vars = ','.join('?' * len(self.columns))
-
-                updt_col_index = self.columns.index(column)
-                chunk = []
-                _iter = cur_read
-                if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
-                for row in _iter:
-                    record = self._from_row_to_record(row, self.columns, to_list=True)
-                    record[updt_col_index] = function(record[updt_col_index])
-                    chunk.append(tuple(record))
-                    if len(chunk) == self.chunk_size:
-                        c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
-                        chunk = []
-
-                if len(chunk) > 0:
+
+            # write the transformed records into a new table, so that nothing changes if the function fails midway
+            cur_read = self._open_cursor()
+            cur_read.execute(self._build_new_state())
+
+            self._col_types[column] = new_col_type
+            new_table_name = f'interactions_{uuid4().hex}'
+            c = self._open_cursor()
+            self._build_table(c, new_table_name)
+
+            cols = ','.join(self.columns)
+            vars = ','.join('?' * len(self.columns))
+
+            updt_col_index = self.columns.index(column)
+            chunk = []
+            _iter = cur_read
+            if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
+            for row in _iter:
+                record = self._from_row_to_record(row, self.columns, to_list=True)
+                record[updt_col_index] = function(record[updt_col_index])
+                assert type(record[updt_col_index]) in supported_types, \
+                    f'New column type "{type(record[updt_col_index])}" is not supported. Supported types: {supported_types}.'
+                chunk.append(tuple(record))
+                if len(chunk) == self.chunk_size:
                     c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
+                    chunk = []
 
-                self._build_indexes(self._open_cursor(), table_name=new_table_name)
-                self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
-                self._shared_db_table_instances[self._db_path + new_table_name] = set()
-                self._shared_db_table_instances[self._db_path + new_table_name].add(id(self))
-                self._active_table = new_table_name
-                self._state_query = ''
+            if len(chunk) > 0:
+                c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
 
+            self._build_indexes(self._open_cursor(), table_name=new_table_name)
             self._conn.commit()
 
         except Exception as e:
+            self._col_types[column] = prev_col_type
+            if new_table_name is not None:
+                cur_read.close()
+                self._open_cursor().execute(f'DROP TABLE IF EXISTS {new_table_name}')
+                self._conn.commit()
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
+        old_table = self._active_table
+        self._shared_db_table_instances[self._db_path + old_table].remove(id(self))
+        self._shared_db_table_instances[self._db_path + new_table_name] = {id(self)}
+        self._active_table = new_table_name
+        self._state_query = ''
+        if len(self._shared_db_table_instances[self._db_path + old_table]) == 0:
+            del self._shared_db_table_instances[self._db_path + old_table]
+            self._open_cursor().execute(f'DROP TABLE {old_table}')
+            self._conn.commit()
+
     def copy(self):
         new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
                          verbose=False)
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 4e1f638..987752d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -345,18 +345,18 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if column in read_only_columns: raise Exception(f'Column "{column}" is read-only.')
 
         try:
-            test_record_col = self._df[column].values[0]
-            new_col_type = type(function(test_record_col))
-            if 'numpy' in str(new_col_type): new_col_type = type(test_record_col.item())
-            assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
+            assert len(self) > 0, 'No records were found.'
+            new_values = [function(value) for value in self._df[column].astype(object)]
+            for new_value in new_values:
+                new_col_type = type(new_value.item() if isinstance(new_value, np.generic) else new_value)
+                assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
             self._df = self._df.copy()
-            self._df[column] = self._df[column].apply(function)
+            self._df[column] = pd.Series(new_values, index=self._df.index)
 
-            if column == 'interaction' and self._cached_interaction_matrix is not None:
+            if column == 'interaction':  # to be rebuilt when needed
                 self._cached_interaction_matrix = None
                 self._cached_trans_interaction_matrix = None
-                self._build_interaction_matrix()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
-- 
2.43.0


From ebb35316475bf52c77ecf0d426da5ca5fbc439cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 11/45] fix: never modify the database file a dataset was
 loaded from, and round-trip saved data

A dataset loaded from a .sqlite file worked directly on that file: filters deleted its records and
closing the dataset dropped its table. Loaded datasets also had no column types, so they could
not be queried. Saving ignored the columns argument (in-memory, sqlite), split single text columns into
characters, did not quote csv values, could reorder records, persisted internal ids and lost
the previous file when interrupted.
---
 DRecPy/Dataset/db_dataset.py  | 106 +++++++++++++++++-----------------
 DRecPy/Dataset/mem_dataset.py |   6 +-
 2 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d294259..e52982d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -10,10 +10,11 @@ from uuid import uuid4
 import random
 from tqdm import tqdm
 from os import remove
-from os import rename
+from os import replace
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
+from shutil import copyfile
 from scipy.sparse import csr_matrix
 
 
@@ -84,6 +85,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._queries_wo_optimize = 0
         self._conn = None
         self._db_path = None
+        self._origin_path = None  # path of the database file the data was loaded from
         self._active_table = kwds.get('active_table', 'interactions')
         self._col_types = None
         self._n_rows = None
@@ -101,7 +103,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         path = expanduser(path)
         if path.endswith('.sqlite'):
-            self._load_from_db(path)
+            self._load_from_db(path, is_copy='active_table' in kwds)
         else:
             self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
 
@@ -407,16 +409,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         Returns:
             None.
         """
-        if len(path) == 0 and '.tmp.' in self._db_path:
+        if len(path) == 0 and self._origin_path is None:
             raise Exception('No save path was specified.')
 
-        if len(path) == 0: path = self._db_path
+        if len(path) == 0: path = self._origin_path
+
+        # internal identifiers are never persisted
+        projected_cols = [col for col in self._handle_columns(columns) if col not in ['rid', 'uid', 'iid']]
 
         if path.endswith('.sqlite'):
-            if path == self._db_path and len(self._shared_db_instances[path]) > 1 or \
-                    path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0:
-                raise Exception(f'Cannot save the current data into "{path}" because there are other '
-                                f'instances that are using this file.')
             tmp_path = path + ".tmp"
             if isfile(tmp_path): remove(tmp_path)
 
@@ -424,33 +425,19 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._set_pragmas(new_db)
             new_db_c = new_db.cursor()
 
-            self._build_table(new_db_c)
-            self._copy_to_new_db(new_db_c)
-            self._build_indexes(new_db_c)
+            self._build_table(new_db_c, columns=projected_cols)
+            self._copy_to_new_db(new_db_c, projected_cols)
+            self._build_indexes(new_db_c, columns=projected_cols)
             new_db_c.close()
             new_db.commit()
             new_db.close()
 
-            if path == self._db_path:  # updating origin db - requires to re-open connection
-                self._conn.close()
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
-                self._open_connection(path, loading=True)
-            else:  # saving into distinct destination
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+            replace(tmp_path, path)
         else:
-            projected_cols = self._handle_columns(columns)
-            if 'rid' in projected_cols: projected_cols.remove('rid')
-            if 'uid' in projected_cols: projected_cols.remove('uid')
-            if 'iid' in projected_cols: projected_cols.remove('iid')
-            with open(path, 'w') as f:
-                if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
-                for row in self.values(columns=projected_cols, to_list=True):
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+            with open(path, 'w', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                if write_header: writer.writerow(projected_cols)
+                writer.writerows(self._ordered_rows(projected_cols))
 
     def assign_internal_ids(self):
         self._detach_value_generators()
@@ -579,6 +566,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                          verbose=False)
 
         new.columns = shallowcopy(self.columns)
+        new._origin_path = self._origin_path
         new.has_internal_ids = self.has_internal_ids
         new._n_rows = self._n_rows
         new._state_query = shallowcopy(self._state_query)
@@ -615,11 +603,24 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         return f'[DatabaseInteractionDataset with shape ({len(self)}, {len(self.columns)})]'
 
     """ Auxiliary private methods"""
-    def _load_from_db(self, path):
+    def _load_from_db(self, path, is_copy=False):
         self._log('Trying to load data from existing database...')
+        if not is_copy:  # never work on the provided file, since reads might rewrite or drop its tables
+            if not isfile(path): raise FileNotFoundError(f'No database file found at "{path}".')
+            self._origin_path = path
+            path = self._temp_db_path()
+            register_temp_file(path)
+            copyfile(self._origin_path, path)
+
         self._open_connection(path, loading=True)
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        table_info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
+        py_type = {'INTEGER': int, 'REAL': float, 'TEXT': str}
+        self._col_types = {v[1]: py_type.get(v[2], str) for v in table_info if v[1] not in ['uid', 'iid']}
+
+    def _temp_db_path(self):
+        return join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite')
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
@@ -692,7 +693,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
+        self._open_connection(self._temp_db_path())
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -897,21 +898,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._open_connection(self._db_path)
             return self._conn.cursor()
 
-    def _copy_to_new_db(self, c, keep_rids=False):
+    def _ordered_rows(self, columns):
+        """Iterates over the values of the given columns, ordered by record id."""
+        return self._open_cursor().execute(f'SELECT {",".join(columns)} FROM ({self._curr_state_source()}) ORDER BY rid')
+
+    def _copy_to_new_db(self, c, columns):
         """Copies the records returned from the current state to the interactions table of the provided connection."""
         records = []
         ctd = 0
-        projected_cols = shallowcopy(self.columns)
-        # make sure 'rid' is the last column
-        projected_cols.remove('rid')
-        projected_cols.append('rid')
 
-        cols = ','.join(projected_cols)
-        vars = ','.join('?' * len(projected_cols))
+        cols = ','.join(columns + ['rid'])
+        vars = ','.join('?' * (len(columns) + 1))
         insert_query = f'INSERT INTO interactions ({cols}) VALUES ({vars})'
-        for row in self.values(columns=projected_cols, to_list=True):
-            if keep_rids: records.append(tuple(row))
-            else: records.append(tuple(row[:-1]) + (ctd,))
+        for row in self._ordered_rows(columns):
+            records.append(tuple(row) + (ctd,))
 
             ctd += 1
             if ctd % self.chunk_size == 0:
@@ -920,7 +920,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(records) > 0: c.executemany(insert_query, records)
 
-    def _build_table(self, c, table_name='interactions'):
+    def _build_table(self, c, table_name='interactions', columns=None):
         py_sql_type = {
             int: 'INTEGER',
             float: 'REAL',
@@ -933,7 +933,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             'uid INTEGER,' \
             'iid INTEGER'
 
-        for col in self.columns:
+        for col in self.columns if columns is None else columns:
             if col not in ['rid', 'uid', 'iid']:
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
@@ -941,22 +941,24 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         c.execute(create_sql_statement)
 
-    def _build_indexes(self, c, table_name='interactions'):
+    def _build_indexes(self, c, table_name='interactions', columns=None):
+        if columns is None: columns = self.columns
         c.execute(f'CREATE INDEX rid_idx_{table_name} ON {table_name} (rid)')
 
-        if 'user' in self.columns:
+        if 'user' in columns:
             c.execute(f'CREATE INDEX user_idx_{table_name} ON {table_name} (user)')
 
-        if 'item' in self.columns:
+        if 'item' in columns:
             c.execute(f'CREATE INDEX item_idx_{table_name} ON {table_name} (item)')
 
-        self._create_internal_id_indexes(c, table_name)
+        self._create_internal_id_indexes(c, table_name, columns)
 
-    def _create_internal_id_indexes(self, c, table_name='interactions'):
-        if 'user' in self.columns:
+    def _create_internal_id_indexes(self, c, table_name='interactions', columns=None):
+        if columns is None: columns = self.columns
+        if 'user' in columns:
             c.execute(f'CREATE INDEX uid_idx_{table_name} ON {table_name} (uid)')
 
-        if 'item' in self.columns:
+        if 'item' in columns:
             c.execute(f'CREATE INDEX iid_idx_{table_name} ON {table_name} (iid)')
 
     def _drop_internal_id_indexes(self, c, table_name='interactions'):
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 987752d..2d1193b 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -302,10 +302,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
-        if 'rid' in projected_cols: projected_cols.remove('rid')
-        if 'uid' in projected_cols: projected_cols.remove('uid')
-        if 'iid' in projected_cols: projected_cols.remove('iid')
+        # internal identifiers are never persisted
+        projected_cols = [col for col in self._handle_columns(columns) if col not in ['rid', 'uid', 'iid']]
         self._df[projected_cols].to_csv(path, index=None, header=write_header)
 
     def assign_internal_ids(self):
-- 
2.43.0


From 183a96be880b8cdef2db74dc1e08a47b30a4c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 12/45] fix: closing a database dataset is idempotent and
 leaves nothing behind

Closing twice raised when another instance shared the database, a missing registry file made closing fail,
and a failed import left its temporary database behind.
---
 DRecPy/Dataset/db_dataset.py | 26 +++++++++++++-------------
 DRecPy/Dataset/file_utils.py |  5 ++---
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index e52982d..b16f89d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -107,10 +107,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
 
-        if self._db_path not in self._shared_db_instances:
-            self._shared_db_instances[self._db_path] = set()
-        self._shared_db_instances[self._db_path].add(id(self))
-
         if self._db_path + self._active_table not in self._shared_db_table_instances:
             self._shared_db_table_instances[self._db_path + self._active_table] = set()
         self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
@@ -581,9 +577,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
-        if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
-            if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
+        if getattr(self, '_db_path', None) is None: return  # nothing was loaded
+
+        table_instances = self._shared_db_table_instances.get(self._db_path + self._active_table, set())
+        if id(self) in table_instances:
+            table_instances.remove(id(self))
+            if len(table_instances) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
                 if not self._has_open_value_generators():
                     self._open_cursor().execute(f'DROP TABLE {self._active_table}')
@@ -591,13 +590,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         if self._conn is not None:
             self._conn.close()
 
-        if self._db_path is not None and self._db_path in self._shared_db_instances:
-            self._shared_db_instances[self._db_path].remove(id(self))
-            if len(self._shared_db_instances[self._db_path]) == 0:
+        db_instances = self._shared_db_instances.get(self._db_path, set())
+        if id(self) in db_instances:
+            db_instances.remove(id(self))
+            if len(db_instances) == 0:
                 del self._shared_db_instances[self._db_path]
-                if '.tmp.' in self._db_path:
-                    remove(self._db_path)
-                    unregister_temp_file(self._db_path)
+                if isfile(self._db_path): remove(self._db_path)
+                unregister_temp_file(self._db_path)
 
     def __str__(self):
         return f'[DatabaseInteractionDataset with shape ({len(self)}, {len(self.columns)})]'
@@ -888,6 +887,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 raise FileNotFoundError(f'No database file found at "{db_path}".')
             register_temp_file(db_path)
         self._db_path = db_path
+        self._shared_db_instances.setdefault(db_path, set()).add(id(self))
         self._conn = sql.connect(db_path, check_same_thread=False)
         self._set_pragmas(self._conn)
 
diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 140a84d..af00cc0 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -40,12 +40,11 @@ def unregister_temp_file(file_path):
                 if path.strip("\n") != file_path:
                     f.write(path)
                     empty = False
+        if empty:
+            os.remove(os.path.join(data_path(), 'tmp_files.txt'))
     except NameError: pass
     except FileNotFoundError: pass
 
-    if empty:
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
-
 
 def delete_temp_files():
     try:
-- 
2.43.0


From 716d2a5a8f45078f27440a7b664fefd5ac7c63a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 13/45] fix: don't delete the temporary databases of other
 running processes

Importing the package removed every registered temporary database, including those that
other processes were still using.
---
 DRecPy/Dataset/file_utils.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index af00cc0..d87395d 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -24,7 +24,7 @@ def is_stored(ds_name):
 def register_temp_file(file_path):
     try:
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
-            f.write(file_path + '\n')
+            f.write(f'{os.getpid()}\t{file_path}\n')
     except NameError: pass  # possible errors with calling 'open' on __del__
     except FileNotFoundError: pass
 
@@ -37,7 +37,7 @@ def unregister_temp_file(file_path):
             paths = f.readlines()
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
             for path in paths:
-                if path.strip("\n") != file_path:
+                if path.strip("\n").split('\t')[-1] != file_path:
                     f.write(path)
                     empty = False
         if empty:
@@ -46,13 +46,32 @@ def unregister_temp_file(file_path):
     except FileNotFoundError: pass
 
 
+def _in_use_by_other_process(pid):
+    """Checks if pid is the id of another running process."""
+    if os.name == 'nt' or int(pid) == os.getpid(): return False  # on windows, files in use can't be removed anyway
+    try:
+        os.kill(int(pid), 0)
+    except ProcessLookupError: return False
+    except PermissionError: pass
+    return True
+
+
 def delete_temp_files():
+    in_use = []
     try:
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
-            for path in f:
+            for line in f:
+                *pid, path = line.strip().split('\t')
+                if len(pid) > 0 and _in_use_by_other_process(pid[0]):
+                    in_use.append(line)
+                    continue
                 try:
-                    os.remove(path.strip())
+                    os.remove(path)
                 except: pass
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        if len(in_use) > 0:
+            with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
+                f.writelines(in_use)
+        else:
+            os.remove(os.path.join(data_path(), 'tmp_files.txt'))
     except NameError: pass
-    except FileNotFoundError: pass
\ No newline at end of file
+    except FileNotFoundError: pass
-- 
2.43.0


From 024f71be88a20266ac9357afb4b8a50b0b786bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:45 +0000
Subject: [PATCH 14/45] fix: interaction vectors reflect the current records

The cached vectors were not discarded by in-place filters, transformations or id assignment, item vectors of
datasets with a single user were wrong, and vectors of filtered in-memory datasets raised or
were truncated when the internal ids were not consecutive.
---
 DRecPy/Dataset/db_dataset.py  |  7 ++++++
 DRecPy/Dataset/mem_dataset.py | 43 ++++++++++++++++-------------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index b16f89d..fd05d42 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -436,6 +436,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 writer.writerows(self._ordered_rows(projected_cols))
 
     def assign_internal_ids(self):
+        self._clear_interaction_vec_caches()
         self._detach_value_generators()
         self._optimize_states()
         self._conn.commit()
@@ -547,6 +548,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._conn.commit()
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
+        self._clear_interaction_vec_caches()
         old_table = self._active_table
         self._shared_db_table_instances[self._db_path + old_table].remove(id(self))
         self._shared_db_table_instances[self._db_path + new_table_name] = {id(self)}
@@ -810,7 +812,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         for gen in list(self._open_value_generators):
             if gen.db_path == self._db_path: gen.detach()
 
+    def _clear_interaction_vec_caches(self):
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _update_state(self, new_state):
+        self._clear_interaction_vec_caches()
         self._queries_wo_optimize += 1
 
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 2d1193b..648c75c 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -188,8 +188,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 cols.append(row[iid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
-            return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+            return csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, int(self.max('iid')) + 1))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -210,14 +209,13 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
-            return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+            return csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, int(self.max('uid')) + 1))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
@@ -228,6 +226,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
+        new_ds._clear_interaction_matrix()
 
         return new_ds
 
@@ -261,6 +260,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
         else:
             new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
+        new_ds._clear_interaction_matrix()
         return new_ds
 
     def user_to_uid(self, user):
@@ -308,6 +308,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
     def assign_internal_ids(self):
         self._df = self._df.copy()  # to avoid issues with other instances modifying the df (df objects are shared)
+        self._clear_interaction_matrix()
 
         if 'uid' not in self.columns: self.columns.append('uid')
         # convert raw user ids (user column) to internal user ids (uid)
@@ -352,9 +353,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             self._df = self._df.copy()
             self._df[column] = pd.Series(new_values, index=self._df.index)
 
-            if column == 'interaction':  # to be rebuilt when needed
-                self._cached_interaction_matrix = None
-                self._cached_trans_interaction_matrix = None
+            if column == 'interaction': self._clear_interaction_matrix()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
@@ -472,7 +471,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if in_place:
             if condition_vector is not None:
-                self._df = self._df [condition_vector]
+                self._df = self._df[condition_vector]
+                self._clear_interaction_matrix()
             return self._df
         else:
             if condition_vector is not None:
@@ -482,19 +482,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
-        users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
-        projected_cols = [col for col in self.columns if col != 'rid']
-        iid_col_idx = projected_cols.index('iid')
-        interaction_col_idx = projected_cols.index('interaction')
-        for uid in range(n_uids):
-            df_segment = self._df[self._df['uid'].values == uid]
-            for row in df_segment[projected_cols].values:
-                users.append(uid)
-                cols.append(row[iid_col_idx])
-                interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
-
-        self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+        # floats due to tf not supporting NPY_INT during np.array to tensor
+        interactions = self._df['interaction'].values.astype(float)
+        self._cached_interaction_matrix = csr_matrix((interactions, (self._df['uid'].values, self._df['iid'].values)),
+                                                     shape=(int(self.max('uid')) + 1, int(self.max('iid')) + 1))
 
         self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
+
+    def _clear_interaction_matrix(self):
+        """Discards the interaction matrix, which is built again when needed."""
+        self._cached_interaction_matrix = None
+        self._cached_trans_interaction_matrix = None
-- 
2.43.0


From c6663f1863cc58fed285977c336205e3b3ddb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:04 +0000
Subject: [PATCH 15/45] fix: null interaction pairs of in-memory datasets

np.float does not exist in supported numpy versions, and the pairs bellow the interaction threshold
were never sampled because a dataframe was passed as query.
---
 DRecPy/Dataset/mem_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 648c75c..51a8777 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -142,14 +142,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
-        max_uid = self.max('uid')
-        max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        max_uid = int(self.max('uid'))
+        max_iid = int(self.max('iid'))
+        n_possible_combs = max_uid * max_iid
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From 14378695bb07e3d1669bcf27b763d4230d94ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:01 +0000
Subject: [PATCH 16/45] fix: unique() and count_unique() over the record id of
 in-memory datasets

---
 DRecPy/Dataset/mem_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 51a8777..29a6de5 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -223,7 +223,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if 'rid' not in columns: columns.append('rid')
         df_columns = [col for col in columns if col != 'rid']
-        new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
+        if len(df_columns) > 0:  # rid is distinct on every record
+            new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
         new_ds._clear_interaction_matrix()
-- 
2.43.0


From 1ed6764627098d8e776b6adb6b5d16549f8e9ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:20 +0000
Subject: [PATCH 17/45] fix: assigning internal ids never changes the ids of
 datasets that share the table

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index fd05d42..81fc471 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -438,7 +438,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def assign_internal_ids(self):
         self._clear_interaction_vec_caches()
         self._detach_value_generators()
-        self._optimize_states()
+        self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
         self._conn.commit()
 
         # create cursor for reads and updates
-- 
2.43.0


From e623a18dad79b0ee251f60ce2845b201d81f12ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:10 +0000
Subject: [PATCH 18/45] fix: keep the registry of temporary files complete if
 interrupted

---
 DRecPy/Dataset/file_utils.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index d87395d..f42bb11 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -30,22 +30,25 @@ def register_temp_file(file_path):
 
 
 def unregister_temp_file(file_path):
-    empty = True
-
     try:
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
             paths = f.readlines()
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
-            for path in paths:
-                if path.strip("\n").split('\t')[-1] != file_path:
-                    f.write(path)
-                    empty = False
-        if empty:
-            os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        _write_temp_files_registry([path for path in paths if path.strip("\n").split('\t')[-1] != file_path])
     except NameError: pass
     except FileNotFoundError: pass
 
 
+def _write_temp_files_registry(lines):
+    """Replaces the registry of temporary files at once, so that no registered file is forgotten if interrupted."""
+    registry_path = os.path.join(data_path(), 'tmp_files.txt')
+    if len(lines) == 0:
+        os.remove(registry_path)
+        return
+    with open(registry_path + '.new', 'w') as f:
+        f.writelines(lines)
+    os.replace(registry_path + '.new', registry_path)
+
+
 def _in_use_by_other_process(pid):
     """Checks if pid is the id of another running process."""
     if os.name == 'nt' or int(pid) == os.getpid(): return False  # on windows, files in use can't be removed anyway
@@ -68,10 +71,6 @@ def delete_temp_files():
                 try:
                     os.remove(path)
                 except: pass
-        if len(in_use) > 0:
-            with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
-                f.writelines(in_use)
-        else:
-            os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        _write_temp_files_registry(in_use)
     except NameError: pass
     except FileNotFoundError: pass
-- 
2.43.0


From b17d9fc351284d30fb726068178ef0a94c3121e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:48 +0000
Subject: [PATCH 19/45] fix: read data frames whatever their index labels

---
 DRecPy/Dataset/dataset_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_factory.py b/DRecPy/Dataset/dataset_factory.py
index 783bcc0..7e504ae 100644
--- a/DRecPy/Dataset/dataset_factory.py
+++ b/DRecPy/Dataset/dataset_factory.py
@@ -50,5 +50,5 @@ class InteractionsDatasetFactory:
         Returns:
             A InteractionDataset instance containing the provided data.
         """
-        return MemoryInteractionDataset(df=df.copy(), user_label=user_label, item_label=item_label,
+        return MemoryInteractionDataset(df=df.reset_index(drop=True), user_label=user_label, item_label=item_label,
                                         interaction_label=interaction_label, **kwds)
-- 
2.43.0


From 02a47f69d7994240f7ade8c32358cfb0470d1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:48 +0000
Subject: [PATCH 20/45] fix: import every line, column and value of delimited
 text files as written

---
 DRecPy/Dataset/db_dataset.py  | 9 +++++----
 DRecPy/Dataset/mem_dataset.py | 7 +++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 81fc471..0dde2a0 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -646,6 +646,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
                 for row in csv_reader:
+                    if len(row) == 0: continue  # blank line
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
@@ -680,14 +681,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         replace_delimiter = False
         if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
             replace_delimiter = True
-            new_delimiter = ','
+            new_delimiter = '\x1f'  # unit separator, which is not expected to be part of any value
 
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
-                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
+                if first_line is None and len(row.strip()) > 0 and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
                     first_line = next(csv.reader([row], delimiter=new_delimiter))
                 num_lines += 1
@@ -941,7 +942,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             'iid INTEGER'
 
         for col in self.columns if columns is None else columns:
-            if col not in ['rid', 'uid', 'iid']:
+            if col not in ['rid', 'uid', 'iid', None]:
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
         create_sql_statement += ')'
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 29a6de5..4e43f54 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -34,8 +34,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]
             skip_rows = 1 if has_header else 0
 
-            self._df = pd.read_csv(path, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
-                                   skiprows=skip_rows, usecols=use_cols)
+            # only empty values are missing values, and floats should be the ones written on the file
+            names = [col if col is not None else f'__skip{i}' for i, col in enumerate(projected_cols)]
+            self._df = pd.read_csv(path, delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
+                                   skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
+                                   float_precision='round_trip' if len(delimiter) == 1 else None)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df')
-- 
2.43.0


From ff629eee3558c0490b345dda63b04e92d31db767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:45 +0000
Subject: [PATCH 21/45] fix: serialise the use of out-of-memory datasets by
 concurrent threads

---
 DRecPy/Dataset/db_dataset.py | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0dde2a0..2bb5dcd 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -15,8 +15,21 @@ from os.path import isfile
 from os.path import join
 from os.path import expanduser
 from shutil import copyfile
+from functools import wraps
+from threading import RLock
 from scipy.sparse import csr_matrix
 
+_lock = RLock()  # instances that share a database share its bookkeeping, and might be used by distinct threads
+
+
+def _synchronized(method):
+    """Decorator for methods that should not be interleaved with the ones being executed by other threads."""
+    @wraps(method)
+    def synchronized_method(*args, **kwds):
+        with _lock:
+            return method(*args, **kwds)
+    return synchronized_method
+
 
 class ValueGenerator:
     """Iterator over the records of a cursor. It holds no reference cycles, so that an abandoned iterator is closed as
@@ -35,6 +48,7 @@ class ValueGenerator:
     def __iter__(self):
         return self
 
+    @_synchronized
     def __next__(self):
         if self.rows is not None:
             row = next(self.rows, None)
@@ -48,12 +62,14 @@ class ValueGenerator:
     def __del__(self):
         self.close()
 
+    @_synchronized
     def detach(self):
         """Reads the remaining rows, so that iterating does not require the database anymore."""
         self.rows = iter(self.cursor.fetchall())
         self.open_value_generators.discard(self)
         self.cursor.close()
 
+    @_synchronized
     def close(self):
         self.rows = iter(())
         self.open_value_generators.discard(self)
@@ -116,6 +132,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._log('Done!')
 
+    @_synchronized
     def __len__(self):
         if self._n_rows is None:
             c = self._open_cursor()
@@ -123,6 +140,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows = c.fetchone()[0]
         return self._n_rows
 
+    @_synchronized
     def select(self, query, copy=True):
         new_ds = self.copy() if copy else self
         if copy: self._record_interaction()
@@ -133,6 +151,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return new_ds
 
+    @_synchronized
     def select_one(self, query, columns=None, to_list=False):
         self._record_interaction()
         query_conditions = self._parse_query(query)
@@ -147,6 +166,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return self._from_row_to_record(row, columns, to_list)
 
+    @_synchronized
     def select_user_interaction_vec(self, uid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
@@ -173,6 +193,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return self._user_interaction_vec_cache[uid]
 
+    @_synchronized
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
@@ -269,6 +290,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if c.execute(new_state).fetchone() is None:
                     yield random_uid, random_iid
 
+    @_synchronized
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns)
         new_ds = self.copy() if copy else self
@@ -290,6 +312,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         new_ds._update_state(new_state)
         return new_ds
 
+    @_synchronized
     def count_unique(self, columns=None):
         self._record_interaction()
         if columns is None: columns = [col for col in self.columns if col != 'rid']  # rid is distinct on every record
@@ -299,6 +322,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
         return c.fetchone()[0]
 
+    @_synchronized
     def max(self, column=None):
         self._record_interaction()
         self._validate_column(column)
@@ -307,6 +331,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT MAX({column}) FROM ({self._curr_state_source()})')
         return c.fetchone()[0]
 
+    @_synchronized
     def min(self, column=None):
         self._record_interaction()
         self._validate_column(column)
@@ -315,6 +340,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT MIN({column}) FROM ({self._curr_state_source()})')
         return c.fetchone()[0]
 
+    @_synchronized
     def values(self, columns=None, to_list=False):
         self._record_interaction()
         columns = self._handle_columns(columns)
@@ -325,6 +351,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return ValueGenerator(c, self._db_path, self._open_value_generators, self._from_row_to_record, columns, to_list)
 
+    @_synchronized
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
         if copy: self._record_interaction()
@@ -338,6 +365,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         new_ds._update_state(new_state)
         return new_ds
 
+    @_synchronized
     def user_to_uid(self, user):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -355,6 +383,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def uid_to_user(self, uid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -364,6 +393,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def item_to_iid(self, item):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -381,6 +411,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def iid_to_item(self, iid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -390,6 +421,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @_synchronized
     def save(self, path='', columns=None, write_header=False):
         """Persists the current dataset instance in the provided path, as a csv or sqlite file.
         Note that internal identifiers, such as the row id (rid), user internal id (uid) and item internal id (iid)
@@ -435,6 +467,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if write_header: writer.writerow(projected_cols)
                 writer.writerows(self._ordered_rows(projected_cols))
 
+    @_synchronized
     def assign_internal_ids(self):
         self._clear_interaction_vec_caches()
         self._detach_value_generators()
@@ -481,6 +514,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._conn.commit()
         self.has_internal_ids = True
 
+    @_synchronized
     def remove_internal_ids(self):
         self.has_internal_ids = False
         if 'uid' in self.columns:
@@ -490,6 +524,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if self._state_query != '':  # keep the columns of the state query in line with self.columns
                 self._state_query = f'SELECT {",".join(self.columns)} FROM ({self._state_query}) WHERE 1'
 
+    @_synchronized
     def apply(self, column, function):
         self._validate_column(column)
         read_only_columns = ['rid', 'uid', 'iid', 'user', 'item']
@@ -559,6 +594,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._open_cursor().execute(f'DROP TABLE {old_table}')
             self._conn.commit()
 
+    @_synchronized
     def copy(self):
         new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
                          verbose=False)
@@ -576,6 +612,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return new
 
+    @_synchronized
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
-- 
2.43.0


From 21d13b26d2134f9fc382be8b6c8b7fb29b9f9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 22/45] fix: splits and evaluations always end and report
 errors when some user fails

---
 .../Processes/recommendation_evaluation.py    | 23 +++++----
 DRecPy/Evaluation/Splits/leave_k_out.py       | 48 +++++++++++--------
 DRecPy/Evaluation/Splits/matrix_split.py      | 21 +++++---
 3 files changed, 59 insertions(+), 33 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index fc1bf11..4dd3ded 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -9,6 +9,7 @@ import matplotlib.pyplot as plt
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import time
+import logging
 
 n_tasks_done = 0
 n_tasks_lock = Lock()
@@ -135,9 +136,22 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    global n_tasks_done
+
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    except Exception as e:
+        logging.error(e)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
     user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
@@ -146,8 +160,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,8 +169,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
@@ -187,6 +197,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 68ad46c..3123ee8 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -63,18 +63,20 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, tasks = [], [], []
     for user in _iter:
         seed += 1
         n_tasks += 1
         if ratio_variant:
-            pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
-                                                       min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+            tasks.append(pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
+                                                                    min_user_interactions, user, k,
+                                                                    random.Random(seed), last_timestamps,
+                                                                    timestamp_label)))
         else:
-            pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
-                                                       min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+            tasks.append(pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
+                                                                    min_user_interactions, user, k,
+                                                                    random.Random(seed), last_timestamps,
+                                                                    timestamp_label)))
 
     pool.close()  # Done adding tasks
 
@@ -89,6 +91,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    for task in tasks: task.get()  # raise errors found by any of the tasks
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
@@ -98,23 +101,33 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
-    n_sampled_items = int(len(user_rows_ds) * k)
-    _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
-                      last_timestamps, timestamp_label)
+    global n_tasks_done
+
+    try:
+        user_rows_ds = interaction_dataset.select(f'user == {user!r}')
+        n_sampled_items = int(len(user_rows_ds) * k)
+        _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
+                          last_timestamps, timestamp_label)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
 
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
-    _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
-                      last_timestamps, timestamp_label)
+    global n_tasks_done
+
+    try:
+        user_rows_ds = interaction_dataset.select(f'user == {user!r}')
+        _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
+                          last_timestamps, timestamp_label)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
 
 
 def _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                             last_timestamps, timestamp_label):
-    global n_tasks_done
-
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
             train_rids_to_rem.extend(user_rows_ds.values_list('rid', to_list=True))
@@ -130,6 +143,3 @@ def _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_inter
             user_rows_rids = user_rows_ds.values_list('rid', to_list=True)
             with test_lock:
                 test_rids.extend(rng.sample(user_rows_rids, k))
-
-    with n_tasks_lock:
-        n_tasks_done += 1
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 7bfc31a..736a2af 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -57,11 +57,11 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, tasks = [], [], []
     for user in _iter:
         n_tasks += 1
-        pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
-                                              min_user_interactions, test_items_set, test_users_set))
+        tasks.append(pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
+                                                           min_user_interactions, test_items_set, test_users_set)))
 
     pool.close()  # Done adding tasks
 
@@ -76,6 +76,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    for task in tasks: task.get()  # raise errors found by any of the tasks
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
@@ -86,6 +87,17 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
+
+    try:
+        __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions,
+                            test_items_set, test_users_set)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
+                        test_users_set):
     user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
@@ -101,6 +113,3 @@ def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user,
         if len(to_test) < len(user_rows_ds):
             with test_lock:
                 test_rids.extend(to_test)
-
-    with n_tasks_lock:
-        n_tasks_done += 1
-- 
2.43.0


From 4b4574bb835415c0a3ad8461e973c06df9af98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:17 +0000
Subject: [PATCH 23/45] fix: FScore and NDCG are 0 when there is nothing
 relevant recommended, instead of failing

---
 DRecPy/Evaluation/Metrics/ranking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index b39d12f..aa10773 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -88,7 +88,7 @@ class NDCG(RankingMetricABC):
         best_recommendations = sorted(relevancies.keys(), key=lambda x: -relevancies[x])
         best_dcg = self.dcg(best_recommendations, relevancies=relevancies, k=k)
 
-        return curr_dcg / best_dcg
+        return curr_dcg / best_dcg if best_dcg > 0 else 0
 
 
 class HitRatio(RankingMetricABC):
@@ -209,6 +209,7 @@ class FScore(RankingMetricABC):
         p = self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=k)
         r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)
 
+        if p == 0 and r == 0: return 0
         return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)
 
 
-- 
2.43.0


From c35aa4a62ba2701809d1fc31ca9ebcedd15a26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:17 +0000
Subject: [PATCH 24/45] fix: the most relevant item of an evaluation is the one
 with the highest interaction

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index bf0833d..659b256 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -176,7 +176,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 4dd3ded..d629959 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -164,7 +164,7 @@ def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From 4c1590ecb4657894bdefefb93ae45323d361314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:17 +0000
Subject: [PATCH 25/45] fix: generated negative pairs of ranking evaluations
 use raw item ids

---
 .../Evaluation/Processes/ranking_evaluation.py  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 659b256..26d1b44 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -104,13 +104,17 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
     global n_tasks_done
     n_tasks_done, n_tasks = 0, 0
 
+    train_items = None
+    if generate_negative_pairs:  # raw item ids from which negative pairs can be generated
+        train_items = sorted(model.interaction_dataset.unique('item').values_list('item', to_list=True))
+
     pool = ThreadPool(processes=max_concurrent_threads)
     for user in _iter:
         if num_users_made >= n_test_users: break  # reach max number of rankings
 
         pool.apply_async(_ranking_evaluation_user, (model, user, ds_test, interaction_threshold, n_pos_interactions,
                                                     n_neg_interactions, train_evaluation, metrics, novelty, metric_sums,
-                                                    k, generate_negative_pairs, random.Random(seed)))
+                                                    k, generate_negative_pairs, train_items, random.Random(seed)))
         n_tasks += 1
         num_users_made += 1
         seed += 1
@@ -147,12 +151,14 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
 
 
 def _ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
-                             train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
+                             train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs,
+                             train_items, rng):
     global n_tasks_done
 
     try:
         __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
-                                  train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng)
+                                  train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs,
+                                  train_items, rng)
     except Exception as e:
         logging.error(e)
     finally:
@@ -161,7 +167,8 @@ def _ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_
 
 
 def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
-                              train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
+                              train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs,
+                              train_items, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     user_ds = ds_test.select(f'user == {user!r}')
@@ -208,7 +215,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 return
 
             while len(user_non_interacted_items) < n_neg_interactions:
-                new_item = rng.randint(0, model.n_items - 1)
+                new_item = train_items[rng.randint(0, model.n_items - 1)]
                 if new_item not in item_blacklist and new_item not in user_non_interacted_items:
                     user_non_interacted_items.append(new_item)
 
-- 
2.43.0


From 5d7b04c72fe521f48836433de925b55cc617f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:33 +0000
Subject: [PATCH 26/45] fix: list sampler targets, window and negative sampling

---
 DRecPy/Sampler/list_sampler.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 2732c30..514278d 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -110,29 +110,24 @@ class ListSampler:
                                         f'({self.min_positive_records}).')
                     continue
 
-                positive_group_records = positive_group_records_ds.values_list()
+                all_positive_group_records = positive_group_records_ds.values_list()
                 if self.sort_column is not None:
-                    positive_group_records.sort(key=lambda x: x[self.sort_column])
-                all_positive_group_records = positive_group_records
+                    all_positive_group_records.sort(key=lambda x: x[self.sort_column])
 
-                padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
-                    if self.n_targets is None:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
-                    else:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - self.n_targets)
-                    positive_group_records = positive_group_records[padding:padding + self.max_positive_records]
+                # choose a random window of records, if there's more records than the ones required
+                n_targets = 0 if self.n_targets is None else self.n_targets
+                padding, n_positives = 0, len(all_positive_group_records) - n_targets
+                if self.max_positive_records is not None and n_positives > self.max_positive_records:
+                    padding = self.rng.randint(0, n_positives - self.max_positive_records)
+                    n_positives = self.max_positive_records
+                positive_group_records = all_positive_group_records[padding:padding + n_positives]
 
                 if self.n_targets is None:
                     group_records_list.append(positive_group_records)
                     break
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
-                if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
-                else:
-                    target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
+                target_group_records = all_positive_group_records[padding + n_positives:padding + n_positives + n_targets]
 
                 # sample negative ids or skip if not possible
                 n_negative_ids = self.neg_ratio * len(target_group_records)
@@ -144,7 +139,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From 7e480da0ccf86078f171a9d19f7bc335a62e2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 27/45] fix: similarity matrices are complete and defined for
 matrices without common or distinct values

---
 DRecPy/Recommender/Baseline/similarity.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..f0bf2c3 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -55,7 +55,7 @@ def cosine_sim_cf(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def adjusted_cosine_sim(matrix):
@@ -111,7 +111,7 @@ def jaccard_sim(matrix):
                 rows.append(i), cols.append(j), data.append(s)
                 if i != j: rows.append(j), cols.append(i), data.append(s)
 
-        return csr_matrix((data, (rows, cols)))
+        return csr_matrix((data, (rows, cols)), shape=(n, n))
 
     try:
         return matrix_jacc(matrix)
@@ -166,6 +166,7 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
+    if len(data) == 0: return csr_matrix((n, n))  # no correlated rows
     return csr_matrix((data, (rows, cols)))
 
 
@@ -173,7 +174,7 @@ def msd(matrix):
     if type(matrix) is not csr_matrix:
         matrix = csr_matrix(matrix)
 
-    max_diff = matrix.max() - matrix.min()
+    max_diff = (matrix.max() - matrix.min()) or 1  # avoid dividing by 0 if all values are equal
 
     if type(matrix) is not lil_matrix:
         matrix = lil_matrix(matrix)
@@ -206,7 +207,7 @@ def msd(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def _subtract_row_mean(A):
-- 
2.43.0


From e65b709ab1f23b43068be93bb0059d8e0dde8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 28/45] fix: rankings of UserKNN include the items predicted by
 averages

---
 DRecPy/Recommender/Baseline/user_knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 7803dbf..d6eed57 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -72,13 +72,12 @@ class UserKNN(BaseKNN):
             rated_items = self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)
             iids = iids.difference(set(rated_items))
 
-        tmp_iid_info = dict()
+        tmp_iid_info = {iid: ([], []) for iid in iids}
 
         for similarity, neighbour in self._neighbours[uid]:
             neighbour_records = self.interaction_dataset.select(f'uid == {neighbour}')
             for iid, interaction in neighbour_records.values(['iid', 'interaction'], to_list=True):
                 if iid not in iids: continue
-                if iid not in tmp_iid_info: tmp_iid_info[iid] = ([], [])
                 tmp_iid_info[iid][0].append(interaction)
                 tmp_iid_info[iid][1].append(similarity)
 
-- 
2.43.0


From 878540c6ca0bb26835c23647ff7f95d57673c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 29/45] fix: refitting KNN models discards the neighbours of
 previous fits

---
 DRecPy/Recommender/Baseline/base_knn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..d6075d1 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,8 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities, self._neighbours = dict(), dict()  # discard the ones from previous fits
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
-- 
2.43.0


From 96c13b5a4cb780dbd4752bc379897682adcfc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 30/45] fix: Caser ranks only the requested items

---
 DRecPy/Recommender/caser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..f4643a4 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -139,8 +139,8 @@ class Caser(RecommenderABC):
 
         if novelty:
             user_iids_set = set(user_iids)
-            novel_user_iids = list(filter(lambda x: x not in user_iids_set, iids))
-            item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]
-            return nlargest(n, item_preds)
+            iids = filter(lambda x: x not in user_iids_set, iids)
 
+        iids = set(iids)
+        item_preds = [(pred, item) for pred, item in item_preds if item in iids]
         return nlargest(n, item_preds)
-- 
2.43.0


From bc9ba6205a59c7fa2f86350ef56111e1ae87bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 31/45] fix: skipped predictions for unknown users or items are
 None for every model

---
 DRecPy/Recommender/recommender_abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..1ad4e5d 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -374,7 +374,8 @@ class RecommenderABC(ABC):
         try:
             uid = self.interaction_dataset.user_to_uid(user_id)
             iid = self.interaction_dataset.item_to_iid(item_id)
-            prediction = self._predict(uid, iid, **kwds)
+            if uid is not None and iid is not None:
+                prediction = self._predict(uid, iid, **kwds)
             if prediction is None:
                 raise Exception(f'Failed to predict(user_id={user_id}, item_id={item_id}): None was returned.')
         except Exception as e:
-- 
2.43.0


From 6fc74dee5df04a7f233c9a2061fcdf59ccc355e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:01 +0000
Subject: [PATCH 32/45] fix: deep models are trainable with recent keras
 versions

---
 DRecPy/Recommender/caser.py           |  2 +-
 DRecPy/Recommender/cdae.py            |  2 +-
 DRecPy/Recommender/dmf.py             |  3 ++-
 DRecPy/Recommender/recommender_abc.py | 23 ++++++++++++-----------
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index f4643a4..91a8df4 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -92,7 +92,7 @@ class Caser(RecommenderABC):
             desired_preds = [1.] * self.T + [0.] * (self.T * self._sampler.neg_ratio)
             desired_values.append(tf.convert_to_tensor(desired_preds))
 
-        return predictions, desired_values
+        return tf.stack(predictions), tf.stack(desired_values)
 
     def _predict_batch_aux(self, uid, iids_before, iids_after, training=False):
         # compute embeddings
diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index a908503..e2499f7 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -54,7 +54,7 @@ class CDAE(RecommenderABC):
             predictions.append(prediction_vector)
             desired_values.append(desired_vector)
 
-        return predictions, desired_values
+        return tf.concat(predictions, axis=0), tf.convert_to_tensor(desired_values, dtype=tf.float32)
 
     def _reconstruct_for_training(self, uid):
         user_embedding = tf.nn.embedding_lookup(self.V, uid)
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 33a8b66..91146bc 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -70,7 +70,8 @@ class DMF(RecommenderABC):
 
         user_tensors, item_tensors = self._preprocess_input(uids, iids)
 
-        return {'user_tensors': user_tensors, 'item_tensors': item_tensors, 'desired_values': desired_values}
+        return {'user_tensors': user_tensors, 'item_tensors': item_tensors,
+                'desired_values': tf.convert_to_tensor(desired_values, dtype=tf.float32)}
 
     def _preprocess_input(self, uids, iids):
         user_vecs = [self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel() for uid in uids]
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 1ad4e5d..4fd7b51 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -191,11 +191,8 @@ class RecommenderABC(ABC):
             with tf.GradientTape() as tape:
                 predictions, desired_values = self._predict_batch(batch_samples, **kwds)
 
-                trainable_weights = self.trainable_weights + \
-                                    [layer.trainable_weights for layer in self.trainable_layers] + \
-                                    [model.trainable_weights for model in self.trainable_models]
-                for trainable_weight in trainable_weights:
-                    tape.watch(trainable_weight)
+                trainable_weights = self._get_trainable_variables()
+                tape.watch(trainable_weights)
 
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
                     self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models, self.trainable_layers, self.trainable_weights)
@@ -325,13 +322,17 @@ class RecommenderABC(ABC):
         return sum([tf.math.add_n(trainable.losses) if len(trainable.losses) > 0 else 0
                     for trainable in trainable_layers + trainable_models])
 
+    def _get_trainable_variables(self):
+        """Returns a list with every tensorflow variable of the registered trainable variables, layers and models."""
+        variables = list(self.trainable_weights)
+        for trainable in self.trainable_layers + self.trainable_models:
+            # variables of recent keras versions are wrappers around the tensorflow variable
+            variables.extend([var if isinstance(var, tf.Variable) else var.value for var in trainable.trainable_weights])
+        return variables
+
     def _update_weights(self, gradients, trainable_weights):
-        for gradient, trainable_var in zip(gradients, trainable_weights):
-            if tf.is_tensor(gradient):
-                gradient = [gradient]
-            if tf.is_tensor(trainable_var):
-                trainable_var = [trainable_var]
-            self.optimizer.apply_gradients(zip(gradient, trainable_var))
+        # all at once, since recent keras optimizers only accept the variables seen on the first update
+        self.optimizer.apply_gradients(zip(gradients, trainable_weights))
 
     def _store_epoch_weights(self):
         self.epoch_weights.append({
-- 
2.43.0


From 708292a34c987cee5156b0c44791eeccdfc6821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:18 +0000
Subject: [PATCH 33/45] fix: fit with copy_dataset copies the dataset instead
 of failing

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 4fd7b51..8ef8ce8 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -134,7 +134,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-- 
2.43.0


From 2c69cc6c6d0fb602fc7a41e9261a370ecd70b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:18 +0000
Subject: [PATCH 34/45] fix: refitting a model discards the trainable variables
 and epoch weights of previous fits

---
 DRecPy/Recommender/recommender_abc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 8ef8ce8..d47921b 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -67,6 +67,7 @@ class RecommenderABC(ABC):
         self.trainable_weights = []
         self.trainable_layers = []
         self.trainable_models = []
+        self._initial_trainables = None  # the ones registered before the first fit
         self.epoch_weights = []
         self.optimizer = None
 
@@ -150,6 +151,7 @@ class RecommenderABC(ABC):
         self._log_initial_info()
 
         self._info('Creating auxiliary structures...')
+        self._discard_previous_fit()
         self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer
         self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
         if kwds.get('optimizer', None) is not None:  # allow forcing custom optimizer
@@ -278,6 +280,12 @@ class RecommenderABC(ABC):
         for variable in variables:
             self._register_trainable(variable)
 
+    def _discard_previous_fit(self):
+        if self._initial_trainables is None:  # first fit
+            self._initial_trainables = (self.trainable_weights, self.trainable_layers, self.trainable_models)
+        self.trainable_weights, self.trainable_layers, self.trainable_models = map(list, self._initial_trainables)
+        self.epoch_weights = []
+
     def _register_optimizer(self, optimizer):
         self.optimizer = optimizer
 
-- 
2.43.0


From e51ec9a187052a03ff33308321017a3b98fa1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 35/45] fix: early stopping reverts the weights of any kind of
 trainable to the best epoch

---
 DRecPy/Recommender/recommender_abc.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index d47921b..74d3ae1 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -68,6 +68,7 @@ class RecommenderABC(ABC):
         self.trainable_layers = []
         self.trainable_models = []
         self._initial_trainables = None  # the ones registered before the first fit
+        self._initial_weights = None
         self.epoch_weights = []
         self.optimizer = None
 
@@ -185,6 +186,7 @@ class RecommenderABC(ABC):
             for metric in epoch_callback_ret:
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
+        e = 0
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
@@ -199,6 +201,7 @@ class RecommenderABC(ABC):
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
                     self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models, self.trainable_layers, self.trainable_weights)
 
+            if e == 1: self._initial_weights = self._get_weights()
             gradients = tape.gradient(loss, trainable_weights)
             self._update_weights(gradients, trainable_weights)
             self._store_epoch_weights()
@@ -227,8 +230,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as exc:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {exc}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
@@ -246,8 +249,8 @@ class RecommenderABC(ABC):
                 if self.verbose:
                     _iter.set_description(progress_desc)
                 self._info(progress_desc, log_console=False)
-            except InvalidEpochValidationResultsException as e:
-                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+            except InvalidEpochValidationResultsException as exc:
+                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {exc}')
 
         if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:
             self._info(f'Reverting network weights to epoch {early_stopping_best_epoch} due to the evaluation of the '
@@ -342,15 +345,19 @@ class RecommenderABC(ABC):
         # all at once, since recent keras optimizers only accept the variables seen on the first update
         self.optimizer.apply_gradients(zip(gradients, trainable_weights))
 
-    def _store_epoch_weights(self):
-        self.epoch_weights.append({
+    def _get_weights(self):
+        return {
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
-        })
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
+        }
+
+    def _store_epoch_weights(self):
+        self.epoch_weights.append(self._get_weights())
 
     def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+        # epoch 0 has the initial weights, others are converted to 0-based idx
+        target_weights = self._initial_weights if epoch == 0 else self.epoch_weights[epoch-1]
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
-- 
2.43.0


From d740bf51491e1219eeefd03ca74c1f082fb5bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 36/45] fix: models with a seed are reproducible whatever was
 executed before

---
 DRecPy/Recommender/recommender_abc.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 74d3ae1..58f6413 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -73,8 +73,7 @@ class RecommenderABC(ABC):
         self.optimizer = None
 
         self._loss_tracker = None
-        self._rng = random.Random(self.seed)
-        tf.random.set_seed(self.seed)
+        self._reset_rngs()
 
         log_formatter = logging.Formatter('[%(asctime)s] (%(levelname)s) %(name)s: %(message)s')
         ch = logging.StreamHandler()
@@ -154,7 +153,14 @@ class RecommenderABC(ABC):
         self._info('Creating auxiliary structures...')
         self._discard_previous_fit()
         self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer
-        self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
+        self._reset_rngs()
+        global_random_state = random.getstate()
+        if self.seed is not None:
+            random.seed(self.seed)  # recent keras versions seed weight initializers and layers from this generator
+        try:
+            self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
+        finally:
+            if self.seed is not None: random.setstate(global_random_state)
         if kwds.get('optimizer', None) is not None:  # allow forcing custom optimizer
             self._register_optimizer(kwds.get('optimizer'))
         self.fitted = True  # should be able to make predictions after pre fit
@@ -283,6 +289,10 @@ class RecommenderABC(ABC):
         for variable in variables:
             self._register_trainable(variable)
 
+    def _reset_rngs(self):
+        self._rng = random.Random(self.seed)
+        tf.random.set_seed(self.seed)
+
     def _discard_previous_fit(self):
         if self._initial_trainables is None:  # first fit
             self._initial_trainables = (self.trainable_weights, self.trainable_layers, self.trainable_models)
-- 
2.43.0


From d6d8eefca6cd5d730cb5cb62790e61c4e058a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:14 +0000
Subject: [PATCH 37/45] fix: text columns that start with number-like values
 are imported as text

---
 DRecPy/Dataset/db_dataset.py  | 22 +++++++++++-----------
 DRecPy/Dataset/mem_dataset.py |  3 ++-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 2bb5dcd..1bb2f7f 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -662,16 +662,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-        def infer_col_types(first_line):
+        def update_col_types(col_types, row):
             projected_cols = shallowcopy(self.columns)
             # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)
             projected_cols.remove('rid')
 
-            col_types = {'rid': int}
-            for value, col in zip(first_line, projected_cols):
-                col_types[col] = self._infer_value_type(value)
-
-            return col_types
+            for value, col in zip(row, projected_cols):
+                if col is None or col_types.get(col) is str or (value == '' and col in col_types): continue
+                value_type = self._infer_value_type(value) if value != '' else None
+                if col_types.get(col) is None or value_type is str or (value_type is float and col_types[col] is int):
+                    col_types[col] = value_type
 
         def process_segment(chunk, delimiter):
             c = self._open_cursor()
@@ -720,18 +720,18 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             replace_delimiter = True
             new_delimiter = '\x1f'  # unit separator, which is not expected to be part of any value
 
-        # read num of lines + detect column types
+        # read num of lines + detect column types (a column has numbers only if all of its values are numbers)
         num_lines = 0
-        first_line = None
+        col_types = {'rid': int}
         with open(path, 'r', encoding=encoding) as f:
             for row in f:
-                if first_line is None and len(row.strip()) > 0 and ((num_lines == 0 and has_header is False) or num_lines > 0):
+                if len(row.strip()) > 0 and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                    first_line = next(csv.reader([row], delimiter=new_delimiter))
+                    update_col_types(col_types, next(csv.reader([row], delimiter=new_delimiter)))
                 num_lines += 1
 
         # open db connection and create table
-        self._col_types = infer_col_types(first_line)
+        self._col_types = {col: col_type if col_type is not None else str for col, col_type in col_types.items()}
         self._open_connection(self._temp_db_path())
         self._build_table(self._open_cursor())
         self._n_rows = 0
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 4e43f54..29a613b 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -38,7 +38,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             names = [col if col is not None else f'__skip{i}' for i, col in enumerate(projected_cols)]
             self._df = pd.read_csv(path, delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
                                    skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
-                                   float_precision='round_trip' if len(delimiter) == 1 else None)
+                                   float_precision='round_trip' if len(delimiter) == 1 else None,
+                                   low_memory=len(delimiter) > 1)  # detect column types using all values
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df')
-- 
2.43.0


From 2f759ca8a9965071c009038757967a0ffff812a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 38/45] fix: integrated datasets are never stored incomplete,
 and keep non-ascii ids

---
 DRecPy/Dataset/integrated_datasets.py | 43 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..b9bc612 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 from zipfile import ZipFile
 import requests
 from DRecPy.Dataset import InteractionDataset
@@ -60,34 +61,40 @@ def download_dataset(ds_name):
     """Download the dataset with name passed as argument."""
     ds_options = DATASETS[ds_name]
     print('> Downloading from', ds_options.url)
-    data = requests.get(ds_options.url).content
+    response = requests.get(ds_options.url)
+    response.raise_for_status()
+    data = response.content
 
+    # everything is prepared in a temporary folder, so that the dataset is never stored incomplete if interrupted
     dataset_path = get_dataset_path(ds_name)
-    if not os.path.exists(dataset_path):
-        os.makedirs(dataset_path)
+    new_path = dataset_path + '.new'
+    shutil.rmtree(new_path, ignore_errors=True)
+    os.makedirs(new_path)
 
     if ds_options.unzip:
         print('> Extracting files from zip')
-        tmp_path = os.path.join(dataset_path, 'tmp.zip')
+        tmp_path = os.path.join(new_path, 'tmp.zip')
         with open(tmp_path, "wb") as f:
             f.write(data)
 
         with ZipFile(tmp_path, 'r') as tmp_zip:
-            tmp_zip.extractall(dataset_path)
+            tmp_zip.extractall(new_path)
 
         # if dataset comes in folder, move it to dataset root folder
         if ds_options.unzip_folder is not None:
-            src = os.path.join(dataset_path, ds_options.unzip_folder)
+            src = os.path.join(new_path, ds_options.unzip_folder)
             for f in os.listdir(src):
                 _from = os.path.join(src, f)
-                _to = os.path.join(dataset_path, f)
+                _to = os.path.join(new_path, f)
                 os.rename(_from, _to)
-            os.removedirs(src)
+            os.rmdir(src)
 
         os.remove(tmp_path)
     else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
-            f.write(data.decode(ds_options.encoding))
+        with open(os.path.join(new_path, ds_options.full_file), 'wb') as f:
+            f.write(data)
+
+    os.rename(new_path, dataset_path)
 
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
@@ -100,7 +107,7 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
@@ -108,6 +115,12 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
 
 
+def _store_generated(ds, path):
+    """Stores a generated dataset at once, so that it's never stored incomplete if interrupted."""
+    ds.save(path + '.new')
+    os.replace(path + '.new', path)
+
+
 def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
     """Gets a train dataset. If the named dataset does not have a specific train file
     (example: BX dataset), a train InteractionDataset will be created using leave_k_out() from the Evaluation module
@@ -140,8 +153,8 @@ def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        _store_generated(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        _store_generated(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return train_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.train_file)
@@ -180,8 +193,8 @@ def get_test_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        _store_generated(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        _store_generated(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return test_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.test_file)
-- 
2.43.0


From 958048e9c06addd53572c944d5e377d1709f2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 39/45] fix: concurrent first reads of the interaction vectors
 of in-memory datasets

---
 DRecPy/Dataset/mem_dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 29a613b..65eafbd 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -489,10 +489,12 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         # floats due to tf not supporting NPY_INT during np.array to tensor
         interactions = self._df['interaction'].values.astype(float)
-        self._cached_interaction_matrix = csr_matrix((interactions, (self._df['uid'].values, self._df['iid'].values)),
-                                                     shape=(int(self.max('uid')) + 1, int(self.max('iid')) + 1))
+        matrix = csr_matrix((interactions, (self._df['uid'].values, self._df['iid'].values)),
+                            shape=(int(self.max('uid')) + 1, int(self.max('iid')) + 1))
 
-        self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
+        # both are complete before the first is set, since it's the one checked by concurrent threads
+        self._cached_trans_interaction_matrix = matrix.transpose()
+        self._cached_interaction_matrix = matrix
 
     def _clear_interaction_matrix(self):
         """Discards the interaction matrix, which is built again when needed."""
-- 
2.43.0


From cf3956b54eee7cb075d6392f8af77a09822ffb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 40/45] fix: asking for a null pair of a dataset without any
 raises instead of searching forever

---
 DRecPy/Dataset/db_dataset.py  | 2 ++
 DRecPy/Dataset/mem_dataset.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 1bb2f7f..3e7965a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -276,6 +276,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         max_uid = self.max('uid')
         max_iid = self.max('iid')
         n_possible_combs = max_uid * max_iid
+        assert existing_null_pair_gen is not None or self.count_unique(['uid', 'iid']) < (max_uid + 1) * (max_iid + 1), \
+            'No null interaction pairs were found to sample from.'
 
         c = self._open_cursor()
         while True:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 65eafbd..74b023e 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -154,6 +154,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         max_uid = int(self.max('uid'))
         max_iid = int(self.max('iid'))
         n_possible_combs = max_uid * max_iid
+        assert existing_null_pair_gen is not None or self.count_unique(['uid', 'iid']) < (max_uid + 1) * (max_iid + 1), \
+            'No null interaction pairs were found to sample from.'
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From 1e9420735d2cc357208bec831f296052f6f57ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 41/45] fix: fitted CDAE, DMF and other models using a point
 sampler can be saved

---
 DRecPy/Sampler/point_sampler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Sampler/point_sampler.py b/DRecPy/Sampler/point_sampler.py
index bc62f0d..1d6e2f2 100644
--- a/DRecPy/Sampler/point_sampler.py
+++ b/DRecPy/Sampler/point_sampler.py
@@ -31,16 +31,27 @@ class PointSampler:
         self.interaction_threshold = interaction_threshold
         self.rng = random.Random(seed)
 
+        self.seed = seed
+        self._start_generators()
+
+    def _start_generators(self):
         self.null_pair_gen = self.interaction_dataset.null_interaction_pair_generator(
-            seed=seed, interaction_threshold=interaction_threshold
+            seed=self.seed, interaction_threshold=self.interaction_threshold
         )
         if self.interaction_threshold is None:
-            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=seed)
+            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=self.seed)
         else:
             self.pos_pair_gen = self.interaction_dataset.select_random_generator(
-                f'interaction >= {interaction_threshold}', seed=seed
+                f'interaction >= {self.interaction_threshold}', seed=self.seed
             )
 
+    def __getstate__(self):  # generators cannot be pickled: a restored instance starts them again
+        return {attr: value for attr, value in self.__dict__.items() if attr not in ['null_pair_gen', 'pos_pair_gen']}
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._start_generators()
+
     def sample(self, n=16):
         """Sample positive and negative interaction pairs according to the set definitions of the PointSampler instance.
 
-- 
2.43.0


From c03d74ba7c03138eaedfe58f96242d4c28380eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 42/45] fix: the interaction range of fitted models includes
 the value of null pairs

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 58f6413..a72cf34 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -139,7 +139,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-        if self.min_interaction == 1: self.min_interaction = 0
+        if self.min_interaction > 0: self.min_interaction = 0  # the value of null pairs is also in the range
         self.max_interaction = self.interaction_dataset.max('interaction')
 
         self.n_users = self.interaction_dataset.count_unique('uid')
-- 
2.43.0


From 4719b8ded78bcd54633476d0098756798bf02908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 43/45] fix: Caser pools over the whole sequence for any number
 of horizontal filters

---
 DRecPy/Recommender/caser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index 91a8df4..4b67d38 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -105,7 +105,7 @@ class Caser(RecommenderABC):
         out_h = []
         for conv_h in self.convs_h:
             conv_output = self.act_h(conv_h(items_embeddings))
-            out_h.append(tf.squeeze(tf.nn.max_pool1d(conv_output, self.n_h, self.n_h, 'SAME'), 1))
+            out_h.append(tf.reduce_max(conv_output, 1))  # max pooling over the whole sequence
 
         out_h = tf.concat(out_h, 1)
         concat_out = tf.concat([out_v, out_h], 1)
-- 
2.43.0


From 2f3c3f9df25b6f0cbc80996cf594179cbc08f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 44/45] fix: out-of-memory datasets support any number of
 filters in a row

---
 DRecPy/Dataset/db_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3e7965a..c0cd11f 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -87,6 +87,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
     _opt_n_rows_threshold = 5000  # only optimize if the row diff between states is at least X
     _opt2_n_direct_interactions_threshold = 4  # another optimization strategy independend from the previous one: optimize if the #direct interactions is bigger than this
+    _opt_state_size_threshold = 100  # always optimize if the state query has more than this number of parts, due to the limits of sqlite
     _default_user_vec_cache_limit = 1000
     _default_item_vec_cache_limit = 1000
 
@@ -871,6 +872,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and not self._has_open_value_generators():
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
+        elif new_state.count('SELECT ') + new_state.count(' AND ') > self._opt_state_size_threshold:
+            self._detach_value_generators()
+            self._optimize_states()
 
     def _optimize_states(self, skip_empty_query=True):
         """Auxiliary method that should be called inside .values() and .unique() that computes
-- 
2.43.0


From 9b7681e861b9a204a6da822491e5e27cd43d2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:38 +0000
Subject: [PATCH 45/45] fix: text like '1_0' is not taken for a number when
 imported out of memory

---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c0cd11f..ba2c1de 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -762,6 +762,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
 
     def _infer_value_type(self, value):
+        if '_' in value or not value.isascii(): return str  # python accepts these in numbers, but sqlite does not
+
         try:
             if '.' in value:
                 raise Exception
-- 
2.43.0

