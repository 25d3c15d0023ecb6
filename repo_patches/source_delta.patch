From b90cfe4c57408d238c4f17098cff03c7ecafd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 01/59] fix: content-based lookup of calls that are only in the
 database

CachedCallStorage.exists_content asked the database about ref history ids
instead of call content ids, and get_data_content passed the connection
positionally into transaction-wrapped methods.
---
 mandala/storage_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..f93528d 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None)  # `conn=None` means "open a transaction"
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
@@ -640,7 +641,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -738,7 +739,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -755,7 +756,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid, conn=conn)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From 9cf71581ab4503e35dd4fe2d5bf517a991445b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 02/59] fix: committing a call another session has committed
 too

Two sessions that compute the same call both save it; the second commit
failed with an IntegrityError and its session's work could not be saved.
---
 mandala/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index f93528d..ccb7d63 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -548,14 +548,14 @@ class SQLiteCallStorage:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "in", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
         for k in call_data["output_hids"]:
             hid = call_data["output_hids"][k]
             cid = call_data["output_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "out", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
 
-- 
2.43.0


From f0d127bed63aac03fefd482a06c7e902b7f842fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 03/59] fix: keep uncommitted work pending when a commit fails

The sets of pending entries were cleared as they were written, before the
transaction had gone through: after a failed commit the rolled-back entries
were never written again. Commits on in-memory databases were not atomic.
---
 mandala/storage.py       | 15 +++++++++++----
 mandala/storage_utils.py | 20 ++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..f71337e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -209,12 +209,19 @@ class Storage:
 
     def commit(self):
         with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
+            conn.execute("BEGIN IMMEDIATE")
+            self.atoms.persist(conn=conn)
+            self.shapes.persist(conn=conn)
+            self.ops.persist(conn=conn)
             if self.versioned:
                 self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+            self.calls.persist(conn=conn)
+        # only now is it safe to forget what was pending: if anything above
+        # fails, the transaction is rolled back and a later commit must retry
+        self.atoms.dirty_keys.clear()
+        self.shapes.dirty_keys.clear()
+        self.ops.dirty_keys.clear()
+        self.calls.dirty_hids.clear()
 
 
     def __repr__(self):
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index ccb7d63..dfa675d 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -290,12 +290,19 @@ class CachedDictStorage(DictStorage):
         self.cache[key] = value
         self.dirty_keys.add(key)
 
-    def commit(self, conn: Optional[sqlite3.Connection] = None) -> None:
+    def persist(self, conn: Optional[sqlite3.Connection] = None) -> None:
         """
-        Persist the values of all dirty keys and clear them
+        Write the values of all dirty keys to the persistent storage. They stay
+        dirty until the transaction they were written in has gone through.
         """
         for key in self.dirty_keys:
             self.persistent.set(key, self.cache[key], conn=conn)
+
+    def commit(self, conn: Optional[sqlite3.Connection] = None) -> None:
+        """
+        Persist the values of all dirty keys and clear them
+        """
+        self.persist(conn=conn)
         self.dirty_keys.clear()
     
     def clear(self, allow_uncommited: bool = False) -> None:
@@ -764,12 +771,13 @@ class CachedCallStorage:
     def get_consumer_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
 
-    def commit(self, conn: Optional[sqlite3.Connection] = None):
-        if conn is None:
-            conn = self.persistent.conn()
-        # with conn:
+    def persist(self, conn: Optional[sqlite3.Connection] = None):
+        # see `CachedDictStorage.persist`
         for hid in self.dirty_hids:
             self.persistent.save(self.cache.get_data(hid), conn=conn)
+
+    def commit(self, conn: Optional[sqlite3.Connection] = None):
+        self.persist(conn=conn)
         self.dirty_hids.clear()
     
     def clear(self, allow_uncommited: bool = False):
-- 
2.43.0


From d452ea50d1d02fc0c797c0d76e4ef74ddb8d7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 04/59] fix: keep call_cache in step with the cache after
 clear_cache

Clearing the call cache replaced the cache object, while Storage.call_cache
kept pointing to the old one: dropping calls after a cache clear left them in
the live cache, where later lookups still found them.
---
 mandala/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f71337e..5dfee51 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -43,7 +43,6 @@ class Storage:
 
         self.call_storage = SQLiteCallStorage(db=self.db, table_name="calls")
         self.calls = CachedCallStorage(persistent=self.call_storage)
-        self.call_cache = self.calls.cache
 
         self.overflow_dir = overflow_dir
         self.overflow_threshold_MB = overflow_threshold_MB
@@ -156,6 +155,11 @@ class Storage:
     ############################################################################ 
     ### runtime configuration options
     ############################################################################ 
+    @property
+    def call_cache(self) -> InMemCallStorage:
+        # always go through `calls`: clearing the cache replaces this object
+        return self.calls.cache
+
     @property
     def mode(self) -> str:
         return self._mode_stack[-1] if self._mode_stack else 'run'
-- 
2.43.0


From 2a1c9f8c6ebbf830de59c93e1e27e024a9a87bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 05/59] fix: dropping calls that are not committed yet

drop_calls left uncommitted calls in the set of pending calls, so the next
commit failed, and did not find uncommitted dependents.
---
 mandala/storage.py       |  4 ++--
 mandala/storage_utils.py | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 5dfee51..4c1be37 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -428,7 +428,7 @@ class Storage:
             hids = list(calls_or_hids)
         hids = set(hids)
         if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
+            _, dependent_call_hids = self.calls.get_dependents(
                 ref_hids=set(), call_hids=hids, conn=conn,
             )
             hids |= dependent_call_hids
@@ -436,7 +436,7 @@ class Storage:
         num_dropped_persistent = 0
         for hid in hids:
             if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
+                self.calls.drop(hid)
                 num_dropped_cache += 1
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index dfa675d..ee47853 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -765,6 +765,22 @@ class CachedCallStorage:
         else:
             return self.persistent.get_data_content(cid, conn=conn)
 
+    def get_dependents(
+        self,
+        ref_hids: Iterable[str],
+        call_hids: Iterable[str],
+        conn: Optional[sqlite3.Connection] = None,
+    ) -> Tuple[Set[str], Set[str]]:
+        """
+        Like `SQLiteCallStorage.get_dependents`, but also follows the calls that
+        have not been committed yet.
+        """
+        df = self.persistent.get_df(conn=conn)
+        pending = self.cache.df
+        pending = pending[pending.index.isin(self.dirty_hids, level=0)]
+        x = InMemCallStorage(pd.concat([df, pending]) if len(pending) > 0 else df)
+        return x.get_dependents(ref_hids=ref_hids, call_hids=call_hids)
+
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
 
-- 
2.43.0


From d7fa39bae2f66ec4082dfb03e93b96cb31eac40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 06/59] fix: load the elements of a list together with the list

load_ref dropped the loaded elements of a ListRef and returned the (shared)
cached shape instead, unlike for a DictRef.
---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 4c1be37..95581e3 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -294,7 +294,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From 8f9db92a9fb5f0f0d3287c406e49aaeddeb0c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 07/59] fix: write overflow files atomically

The overflow storage is write-once, so a file left incomplete by a crash was
taken for the value from then on.
---
 mandala/storage_utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index ee47853..508795a 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -153,7 +153,16 @@ class JoblibDictStorage(DictStorage):
     def set(self, key: str, value: Any) -> None:
         if self.exists(key):
             return # this is a write-once storage
-        joblib.dump(value, self.get_path_for_key(key))
+        # write to a temporary file first: since this storage is write-once, a
+        # file left incomplete by a crash would never be replaced
+        path = self.get_path_for_key(key)
+        tmp_path = f'{path}.{uuid.uuid4().hex}.tmp'
+        try:
+            joblib.dump(value, tmp_path)
+            os.replace(tmp_path, path)
+        finally:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
     
     def drop(self, key: str) -> None:
         os.remove(self.get_path_for_key(key))
-- 
2.43.0


From 9ab5481c5c3ac2cfad62bfe8496922246b138623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 08/59] fix: roll back before retrying a failed transaction

On an in-memory database, whose connection is kept, the retry failed because
the previous transaction was still open.
---
 mandala/storage_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 508795a..5d06780 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -67,6 +67,8 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
                 conn.commit()
                 return res
             except sqlite3.OperationalError as e:
+                if conn.in_transaction:
+                    conn.rollback()
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
-- 
2.43.0


From d4b6c1a260de382c46871fb2066fe7575a14368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 09/59] fix: keep uncommitted work when preloading caches

---
 mandala/storage.py       | 11 ++++++++---
 mandala/storage_utils.py |  8 ++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 95581e3..ff38d41 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -192,17 +192,22 @@ class Storage:
 
     def preload_calls(self):
         df = self.call_storage.get_df()
+        pending = self.call_cache.df
+        pending = pending[pending.index.isin(self.calls.dirty_hids, level=0)]
+        if len(pending) > 0: # don't lose uncommitted calls
+            df = df[~df.index.isin(self.calls.dirty_hids, level=0)]
+            df = pd.concat([df, pending])
         self.call_cache.df = df
         self.call_cache.call_hids = set(df.index.levels[0].unique())
     
     def preload_shapes(self):
-        self.shapes.cache = self.shapes.persistent.load_all()
+        self.shapes.preload()
     
     def preload_ops(self):
-        self.ops.cache = self.ops.persistent.load_all()
+        self.ops.preload()
 
     def preload_atoms(self):
-        self.atoms.cache = self.atoms.persistent.load_all()
+        self.atoms.preload()
     
     def preload(self, lazy: bool = True):
         self.preload_calls()
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 5d06780..69f61df 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -285,6 +285,14 @@ class CachedDictStorage(DictStorage):
     
     def load_all(self) -> Dict[str, Any]:
         return self.persistent.load_all()
+
+    def preload(self) -> None:
+        """
+        Fill the cache with everything that's persisted, keeping the values that
+        have not been committed yet.
+        """
+        pending = {key: self.cache[key] for key in self.dirty_keys}
+        self.cache = {**self.persistent.load_all(), **pending}
     
     def __len__(self) -> int:
         return len(self.cache)
-- 
2.43.0


From 3d475805b5a241b43564c6ecad1a196814cde28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 10/59] fix: reading a value does not make it uncommitted

Unwrapping a lazy ref re-saved its atom, so that clear_cache() refused to work
although there was nothing to commit.
---
 mandala/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index ff38d41..12a7a9d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -505,9 +505,8 @@ class Storage:
         # TODO: implement `cache = False` in `load_ref`
         assert isinstance(obj, AtomRef)
         if not obj.in_memory:
+            # this also caches the atom
             ref = self.load_ref(hid=obj.hid, in_memory=False)
-            if cache:
-                self.atoms[obj.cid] = serialize(ref.obj)
             return ref.obj
         else:
             return obj.obj
-- 
2.43.0


From 55b8c9bdc25e38640d71a9392efffda449bcd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 11/59] fix: restore the outer context when a nested one ends

Leaving a context of another storage inside a context reset the current
context to none, so the rest of the outer block silently ran without
memoization; and an exit hook that raised, or code that could not be synced on
entry, left the mode stack and the context behind.
---
 mandala/storage.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 12a7a9d..100a059 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -125,6 +125,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # the contexts that were active when the current ones were entered
+        self._outer_contexts = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1222,12 +1224,13 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
-        Context.current_context = Context(storage=self)
-        self._mode_stack.append(self._next_mode)
         if self.versioned:
             versioner, code_state = self.sync_code()
             self.cached_versioner = versioner
             self.code_state = code_state
+        self._outer_contexts.append(Context.current_context)
+        Context.current_context = Context(storage=self)
+        self._mode_stack.append(self._next_mode)
         return self
 
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -1248,26 +1251,23 @@ class Storage:
     #             hook(self)
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
-        # Context.current_context = None
+        is_topmost = (len(self._mode_stack) == 1)
         try:
-            if len(self._mode_stack) == 1: # this is the topmost level
+            if is_topmost:
                 self.commit()
-        except Exception as e:
-            raise e
         finally:
-            if len(self._mode_stack) == 1: # this is the topmost level
-                Context.current_context = None
-                self.cached_versioner = None
-                self.code_state = None
-
-                for hook in self._exit_hooks:
-                    hook(self)
-
+            # restore the outer state before anything else that could raise
+            Context.current_context = self._outer_contexts.pop()
             _ = self._mode_stack.pop()
             if self._mode_stack:
                 self._next_mode = self._mode_stack[-1]
             else:
                 self._next_mode = 'run'
+            if is_topmost:
+                self.cached_versioner = None
+                self.code_state = None
+                for hook in self._exit_hooks:
+                    hook(self)
 
 
 
-- 
2.43.0


From 745b2d1046ded64b26d065cba4f959494c2120c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 12/59] fix: history of collection items for calls found by
 content

A call found by its content got new history ids for its outputs, but the items
of list and dict outputs kept the history of the call that was found, had no
item access calls on the new collection, and disappeared with the other call.
---
 mandala/storage.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 100a059..152c7bc 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -607,18 +607,19 @@ class Storage:
         output_ref = main_call.outputs[list(main_call.outputs.keys())[0]]
         return output_ref, calls
 
-    def destruct(self, ref: Ref, tp: Type) -> Tuple[Ref, List[Call]]:
+    def destruct(self, ref: Ref, tp: Optional[Type]) -> Tuple[Ref, List[Call]]:
         """
         Given a value w/ correct hid but possibly incorrect internal hids,
         destructure it, and return a value with correct internal hids and the
-        calls that were made to destructure the value.
+        calls that were made to destructure the value. If `tp` is None, the type
+        is taken from the structure of the value.
         """
         destr_calls = []
         if isinstance(ref, AtomRef):
             return ref, destr_calls
         elif isinstance(ref, ListRef):
             assert isinstance(ref, ListRef)
-            assert isinstance(tp, ListType)
+            assert tp is None or isinstance(tp, ListType)
             new_elts = []
             for i, elt in enumerate(ref):
                 getitem_dict, item_call, _ = self.call_internal(
@@ -628,24 +629,24 @@ class Storage:
                 )
                 new_elt = getitem_dict["list_item"]
                 destr_calls.append(item_call)
-                new_elt, elt_subcalls = self.destruct(new_elt, tp=tp.elt)
+                new_elt, elt_subcalls = self.destruct(new_elt, tp=None if tp is None else tp.elt)
                 new_elts.append(new_elt)
                 destr_calls.extend(elt_subcalls)
             res = ListRef(cid=ref.cid, hid=ref.hid, in_memory=True, obj=new_elts)
             return res, destr_calls
         elif isinstance(ref, DictRef):
             assert isinstance(ref, DictRef)
-            assert isinstance(tp, DictType)
+            assert tp is None or isinstance(tp, DictType)
             new_items = {}
             for k, v in ref.items():
                 getvalue_dict, value_call, _ = self.call_internal(
                     op=__dict_getitem__,
                     storage_inputs={"dict": ref, "key": k},
-                    storage_tps={"dict": tp, "key": tp.key},
+                    storage_tps={"dict": tp, "key": AtomType() if tp is None else tp.key},
                 )
                 new_v = getvalue_dict["dict_value"]
                 destr_calls.append(value_call)
-                new_v, v_subcalls = self.destruct(new_v, tp=tp.val)
+                new_v, v_subcalls = self.destruct(new_v, tp=None if tp is None else tp.val)
                 new_items[k] = new_v
                 destr_calls.extend(v_subcalls)
             res = DictRef(cid=ref.cid, hid=ref.hid, in_memory=True, obj=new_items)
@@ -705,8 +706,9 @@ class Storage:
             output_history_ids = op.get_output_history_ids(call_history_id=call_hid, output_names=list(op.get_ordered_outputs(output_dict=output_names_identity)))
             for k, v in call_prototype.outputs.items():
                 v.hid = output_history_ids[k]
-            for k, v in call_prototype.inputs.items():
-                v.hid = inputs[k].hid
+            # use the given inputs: when they are collections, the elements of
+            # the prototype's inputs may have different histories
+            call_prototype.inputs = inputs
             return call_prototype
         logger.debug(f"Could not find a call to {op.name} with hid {call_hid} or cid {call_cid}.")
         return None
@@ -840,7 +842,14 @@ class Storage:
             call_hid = call_option.hid
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
-            return main_call.outputs, main_call, input_calls
+            output_calls = []
+            if not op.__structural__ and not self.calls.exists(call_hid):
+                # found by content ID: the elements of collections in the
+                # outputs still have the history of the call that was found
+                for k, v in main_call.outputs.items():
+                    main_call.outputs[k], destr_calls = self.destruct(v, tp=None)
+                    output_calls.extend(destr_calls)
+            return main_call.outputs, main_call, input_calls + output_calls
         
         if not self._allow_new_calls:
             # caller should decide how to handle this
-- 
2.43.0


From a1e407ae12065ca7e209f2134cd9bd51c8ec40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 13/59] fix: pass arguments of a memoized call to the
 parameters they were bound to

Keyword arguments were moved by name between the bound arguments, which lost
the values of positional-only parameters and of keywords named like a variadic
parameter.
---
 mandala/storage.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 152c7bc..6379071 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -795,7 +795,6 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
-        kwarg_keys: Optional[List[str]] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -869,23 +868,8 @@ class Storage:
             # cids_before = {k: v.cid for k, v in wrapped_inputs.items()}
             # raw_values = {k: self.unwrap(v) for k, v in wrapped_inputs.items()}
             ### we must run the function
-            kwargs = {}
-            if kwarg_keys is not None:
-                for k in kwarg_keys:
-                    if k in bound_arguments.arguments:
-                        kwargs[k] = bound_arguments.arguments[k]
-                        del bound_arguments.arguments[k]
-                    else: # must be a var keyword
-                        # figure out the name of the var keyword
-                        var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
-                        var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
-                        assert var_keyword is not None
-                        varkwargs = bound_arguments.arguments[var_keyword.name]
-                        kwargs[k] = varkwargs[k]
-                        del varkwargs[k]
-            args, leftover_kwargs = bound_arguments.args, bound_arguments.kwargs
+            args, kwargs = boundargs_to_args_kwargs(bound_arguments)
             args = self.unwrap(args)
-            kwargs.update(leftover_kwargs)
             kwargs = self.unwrap(kwargs)
             # replace any ValuePointer instances with their underlying objects
             kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  
@@ -1189,7 +1173,6 @@ class Storage:
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
         config = {} if config is None else config
-        kwarg_keys = set(kwargs.keys())
         bound_arguments, storage_inputs, storage_annotations = self.parse_args(
             sig=inspect.signature(op.f),
             args=args,
@@ -1216,7 +1199,6 @@ class Storage:
                 storage_inputs = storage_inputs,
                 bound_arguments = bound_arguments,
                 storage_tps=storage_tps,
-                kwarg_keys=kwarg_keys,
             )
             if config.get("save_calls", False):
                 self.save_call(main_call)
-- 
2.43.0


From 011662b1f3ff2b198ef85637a808cacf3526fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 14/59] fix: arguments of variadic parameters that clash with
 other names

An extra keyword argument named like a positional-only parameter, an item of
*args or an output took the place of that argument in the identity and the
record of the call, so that different calls were taken for the same one.
---
 mandala/storage.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 6379071..f5a7322 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1,6 +1,7 @@
 from .common_imports import *
 from tqdm import tqdm
 import datetime
+import re
 from .model import *
 import sqlite3
 from .model import __make_list__, __list_getitem__, __make_dict__, __dict_getitem__, _Ignore, _NewArgDefault, ValuePointer
@@ -721,7 +722,8 @@ class Storage:
         }
     
     def parse_args(self, sig: inspect.Signature, args, kwargs, apply_defaults: bool, 
-                   ignore_args: Optional[Tuple[str,...]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
+                   ignore_args: Optional[Tuple[str,...]] = None,
+                   output_names: Optional[List[str]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
         """
         Given the inputs passed to an @op call (could be wrapped or unwrapped),
         figure out the inputs we should pass to storage functions, their type
@@ -734,6 +736,20 @@ class Storage:
         var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
         var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
         default_values = {k: v.default for k, v in sig.parameters.items() if v.default is not inspect.Parameter.empty}
+        # the arguments collected by variadic parameters share a namespace with
+        # the other arguments and the outputs: mark the names that would clash
+        def get_vararg_name(i: int) -> str:
+            name = f'{var_positional.name}_{i}'
+            return f'*{name}' if name in sig.parameters else name
+
+        def get_varkwarg_name(name: str) -> str:
+            clashes = (
+                name in sig.parameters
+                or (var_positional is not None and re.fullmatch(rf'{var_positional.name}_\d+', name))
+                or (re.fullmatch(r'output_\d+', name) if output_names is None else name in output_names)
+            )
+            return f'**{name}' if clashes else name
+
         bound_arguments = sig.bind(*args, **kwargs)
         if apply_defaults:
             bound_arguments.apply_defaults()
@@ -747,7 +763,7 @@ class Storage:
                 # we must unwrap any _Ignore instances
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
                 ignored_mask = [True if isinstance(arg, _Ignore) else False for arg in v]
-                names = [f'{k}_{i}' for i in range(len(new_v))]
+                names = [get_vararg_name(i) for i in range(len(new_v))]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
                 for name, val, ignored in zip(names, new_v, ignored_mask):
@@ -761,8 +777,9 @@ class Storage:
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
-                        storage_inputs[name] = val
-                        storage_annotations[name] = var_keyword.annotation
+                        storage_name = get_varkwarg_name(name)
+                        storage_inputs[storage_name] = val
+                        storage_annotations[storage_name] = var_keyword.annotation
             else:
                 if ignore_args is not None and k in ignore_args:
                     v = Ignore(v)
@@ -1179,6 +1196,7 @@ class Storage:
             kwargs=kwargs,
             apply_defaults=True,
             ignore_args=op.ignore_args,
+            output_names=op.output_names,
         )
 
         if self.mode == "noop":
-- 
2.43.0


From 68a6a76ef7e5c0d9beda6d92c76bb47d6bf35210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 15/59] fix: histories of items in constructed and
 passed-through collections

A list or dict built from inputs and found by content kept the items (and
histories) of the collection that was found, and a collection returned as a
ref by a function was recorded without item accesses of its own. Item and
collection operations are now always made again for new histories, which also
lets recorded calls with collection inputs be served when new calls are
disallowed.
---
 mandala/storage.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f5a7322..f9e2e84 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -692,6 +692,10 @@ class Storage:
             call_data = self.calls.get_data(call_history_id=call_hid)
             logger.debug(f"Found call to {op.name} with hid {call_hid}.")
             return self._get_call_from_data(call_data, in_memory=True)
+        if op.__structural__:
+            # these only rearrange refs: making the call again is how a
+            # collection gets items with the right histories
+            return None
         ### if this fails, look up by content ID, and apply the correct history IDs
         call_cid = op.get_call_content_id(
             inputs=inputs, semantic_version=semantic_version
@@ -859,7 +863,7 @@ class Storage:
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
             output_calls = []
-            if not op.__structural__ and not self.calls.exists(call_hid):
+            if not self.calls.exists(call_hid):
                 # found by content ID: the elements of collections in the
                 # outputs still have the history of the call that was found
                 for k, v in main_call.outputs.items():
@@ -867,7 +871,7 @@ class Storage:
                     output_calls.extend(destr_calls)
             return main_call.outputs, main_call, input_calls + output_calls
         
-        if not self._allow_new_calls:
+        if not self._allow_new_calls and not op.__structural__:
             # caller should decide how to handle this
             raise RuntimeError(f"Call to {op.name} does not exist and new calls are not allowed.")
 
@@ -942,7 +946,11 @@ class Storage:
         output_calls = []
         for k, v in outputs_dict.items():
             if isinstance(v, Ref):
-                wrapped_outputs[k] = v.with_hid(hid=output_history_ids[k])
+                final = v.with_hid(hid=output_history_ids[k])
+                if not op.__structural__:
+                    final, output_calls_for_output = self.destruct(final, tp=None)
+                    output_calls.extend(output_calls_for_output)
+                wrapped_outputs[k] = final
             elif isinstance(output_tps[k], AtomType):
                 wrapped_outputs[k] = wrap_atom(v, history_id=output_history_ids[k])
             else:  # recurse on types
-- 
2.43.0


From f918cefd1a0af315a8dbec5831273891e6a22a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 16/59] fix: content of empty dicts differs from that of empty
 lists

---
 mandala/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..d9e9dbd 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -416,8 +416,10 @@ def __make_list__(**items: Any) -> MList[Any]:
     )
 
 def __make_dict__(**kwargs: Any) -> dict:
+    item_cids = sorted([(k, v.cid) for k, v in kwargs.items()])
     return DictRef(
-        cid=get_content_hash(sorted([(k, v.cid) for k, v in kwargs.items()])),
+        # an empty dict must not have the same content ID as an empty list
+        cid=get_content_hash(item_cids if len(item_cids) > 0 else {}),
         hid=get_content_hash(sorted([(k, v.hid) for k, v in kwargs.items()])),
         in_memory=True,
         obj=kwargs,
-- 
2.43.0


From aaed8c2beae4e4adb1d54b5e33806ae22ef84444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 17/59] fix: ignored arguments reach the function unwrapped
 only once

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f9e2e84..1435e5d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -785,7 +785,7 @@ class Storage:
                         storage_inputs[storage_name] = val
                         storage_annotations[storage_name] = var_keyword.annotation
             else:
-                if ignore_args is not None and k in ignore_args:
+                if ignore_args is not None and k in ignore_args and not isinstance(v, _Ignore):
                     v = Ignore(v)
                 # could have a default
                 if isinstance(v, _Ignore):
-- 
2.43.0


From 0a9f4c82fecc51fa16f4b80111be8880d143b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 18/59] fix: ignore_args applies to arguments collected by
 variadic parameters

---
 mandala/storage.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1435e5d..8970b06 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -754,6 +754,9 @@ class Storage:
             )
             return f'**{name}' if clashes else name
 
+        def is_declared_ignored(name: str) -> bool:
+            return ignore_args is not None and name in ignore_args
+
         bound_arguments = sig.bind(*args, **kwargs)
         if apply_defaults:
             bound_arguments.apply_defaults()
@@ -766,7 +769,7 @@ class Storage:
                 # there are no defaults here
                 # we must unwrap any _Ignore instances
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
-                ignored_mask = [True if isinstance(arg, _Ignore) else False for arg in v]
+                ignored_mask = [isinstance(arg, _Ignore) or is_declared_ignored(k) for arg in v]
                 names = [get_vararg_name(i) for i in range(len(new_v))]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
@@ -776,8 +779,12 @@ class Storage:
                         storage_annotations[name] = var_positional.annotation
             elif var_keyword is not None and k == var_keyword.name:
                 # there are no defaults here either
-                new_v = {k: arg.value if isinstance(arg, _Ignore) else arg for k, arg in v.items()}
-                ignored_mask = {k: True if isinstance(arg, _Ignore) else False for k, arg in v.items()}
+                new_v = {name: arg.value if isinstance(arg, _Ignore) else arg for name, arg in v.items()}
+                ignored_mask = {
+                    name: isinstance(arg, _Ignore) or is_declared_ignored(k)
+                    or (name not in sig.parameters and is_declared_ignored(name))
+                    for name, arg in v.items()
+                }
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
@@ -785,7 +792,7 @@ class Storage:
                         storage_inputs[storage_name] = val
                         storage_annotations[storage_name] = var_keyword.annotation
             else:
-                if ignore_args is not None and k in ignore_args and not isinstance(v, _Ignore):
+                if is_declared_ignored(k) and not isinstance(v, _Ignore):
                     v = Ignore(v)
                 # could have a default
                 if isinstance(v, _Ignore):
-- 
2.43.0


From b7a7b04af4b3c43dc0a6348b6d3ffc3e3ecade2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 19/59] fix: values that only compare equal to a new default
 are not the default

---
 mandala/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..e1f7a5f 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -60,12 +60,16 @@ def _conservative_equality_check(safe_value: Any, unknown_value: Any) -> bool:
         return safe_value == unknown_value
     # handle some common cases
     if isinstance(unknown_value, np.ndarray):
-        return np.array_equal(safe_value, unknown_value)
+        return safe_value.dtype == unknown_value.dtype and np.array_equal(safe_value, unknown_value)
     elif isinstance(unknown_value, pd.DataFrame):
         return safe_value.equals(unknown_value)
     else:
-        # fall back to the default equality check
-        return safe_value == unknown_value
+        # fall back to the default equality check; values that compare equal
+        # can still have different contents, like [1] and [True]
+        return safe_value is unknown_value or (
+            safe_value == unknown_value
+            and get_content_hash(safe_value) == get_content_hash(unknown_value)
+        )
 
 
 def get_content_hash(obj: Any) -> str:
-- 
2.43.0


From 68e4084bbc29f2d63df1d0e3547408292679a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 20/59] fix: memoized functions can have a parameter named self

---
 mandala/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/model.py b/mandala/model.py
index d9e9dbd..f45139a 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -241,7 +241,7 @@ class Op:
             __structural__=self.__structural__,
         )
 
-    def __call__(self, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
+    def __call__(self, /, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
         if Context.current_context is None:  # act as noop
             return self.f(*args, **kwargs)
         else:
-- 
2.43.0


From eb4c4bce07f8b3cc28a9436fd45cd234e422d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 21/59] fix: cleaning up refs keeps the items of collections
 that calls still use

---
 mandala/storage.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 8970b06..5d46f3c 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -480,14 +480,26 @@ class Storage:
 
     def get_orphans(self) -> Set[str]:
         """
-        Return the HIDs of the refs not connected to any calls.
+        Return the HIDs of the refs not connected to any calls. The items of a
+        collection that's connected to a call are connected to it, too.
         """
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        all_hids = set(self.shapes.persistent.keys())
+        shapes = self.shapes.persistent.load_all()
         df = self.call_storage.get_df()
-        hids_in_calls = df["ref_history_id"].unique()
-        return all_hids - set(hids_in_calls)
+        orphans = set(shapes.keys())
+        connected = list(df["ref_history_id"].unique())
+        while connected:
+            hid = connected.pop()
+            if hid not in orphans:
+                continue
+            orphans.remove(hid)
+            shape = shapes[hid]
+            if isinstance(shape, ListRef):
+                connected.extend(elt.hid for elt in shape)
+            elif isinstance(shape, DictRef):
+                connected.extend(elt.hid for elt in shape.values())
+        return orphans
 
     def get_unreferenced_cids(self) -> Set[str]:
         """
-- 
2.43.0


From 6f3250311da3f0021c34329b303be3468e252459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 22/59] fix: no edge labels without edges after dropping nodes
 or intersecting frames

---
 mandala/cf.py    | 5 +++++
 mandala/utils.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..bf51bc4 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -327,6 +327,11 @@ class ComputationFrame:
         """
         self.out[src][label].remove(dst)
         self.inp[dst][label].remove(src)
+        # don't leave behind labels with no edges
+        if not self.out[src][label]:
+            del self.out[src][label]
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
diff --git a/mandala/utils.py b/mandala/utils.py
index e1f7a5f..92ab773 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -137,7 +137,14 @@ def get_adjacency_union(
 def get_adjacency_intersection(
     a: Dict[str, Dict[str, Set[str]]], b: Dict[str, Dict[str, Set[str]]]
 ) -> Dict[str, Dict[str, Set[str]]]:
-    return {k: get_setdict_intersection(a[k], b[k]) for k in a.keys() & b.keys()}
+    return {
+        k: {
+            label: nodes
+            for label, nodes in get_setdict_intersection(a[k], b[k]).items()
+            if nodes  # don't leave behind labels with no edges
+        }
+        for k in a.keys() & b.keys()
+    }
 
 
 def get_nullable_union(*sets: Set[str]) -> Set[str]:
-- 
2.43.0


From c8dcd9189f047fc224869cb860b76b95e5250c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 23/59] fix: expanding connects calls already in the frame
 along new edges

---
 mandala/cf.py | 78 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index bf51bc4..6a4ffd6 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -378,28 +378,31 @@ class ComputationFrame:
             self.callinv[call.hid] = set()
         self.callinv[call.hid].add(fname)
         if with_refs:
-            for input_name, input_ref in call.inputs.items():
-                input_proj = get_name_proj(call.op)(input_name)
-                # skip over inputs not tracked by the graph
-                if input_proj not in self.inp[fname]:
-                    continue
-                # add to consumers
-                if input_ref.hid not in self.consumers:
-                    self.consumers[input_ref.hid] = set()
-                self.consumers[input_ref.hid].add(call.hid)
-                # add ref to corresponding variables
-                for vname in self.inp[fname][input_proj]:
-                    self.add_ref(vname, input_ref, allow_existing=True)
-            for output_name, output_ref in call.outputs.items():
-                output_proj = get_name_proj(call.op)(output_name)
-                # skip over outputs not tracked by the graph
-                if output_proj not in self.out[fname]:
-                    continue
-                # add to creator
-                self.creator[output_ref.hid] = call.hid
-                # add ref to corresponding variables
-                for vname in self.out[fname][output_proj]:
-                    self.add_ref(vname, output_ref, allow_existing=True)
+            for label, vnames in self.inp[fname].items():
+                for vname in vnames:
+                    self._connect_call(call, vname, label, side="inputs")
+            for label, vnames in self.out[fname].items():
+                for vname in vnames:
+                    self._connect_call(call, vname, label, side="outputs")
+
+    def _connect_call(
+        self, call: Call, vname: str, label: str, side: Literal["inputs", "outputs"]
+    ):
+        """
+        Internal method to add the inputs/outputs of a call that project to the
+        given edge label to the variable at the other end of the edge.
+        """
+        refs = call.inputs if side == "inputs" else call.outputs
+        for name, ref in refs.items():
+            if get_name_proj(call.op)(name) != label:
+                continue
+            if side == "inputs":
+                if ref.hid not in self.consumers:
+                    self.consumers[ref.hid] = set()
+                self.consumers[ref.hid].add(call.hid)
+            else:
+                self.creator[ref.hid] = call.hid
+            self.add_ref(vname, ref, allow_existing=True)
 
     def drop_call(self, fname: str, hid: str):
         """
@@ -1008,6 +1011,7 @@ class ComputationFrame:
                 if verbose: print(f"Adding function {fname} for group {group_id}")
             
             ### create edges on the side to glue
+            edges_before = set(self.edges())
             for label, connected_vnames in sorted(label_to_connected_vnames.items()): # sort to ensure deterministic behavior
                 if not connected_vnames:
                     continue
@@ -1064,6 +1068,26 @@ class ComputationFrame:
             ### finally, add the calls to the CF
             for call in group_calls:
                 self.add_call(fname, call, with_refs=True, allow_existing=reuse_existing)
+            ### calls that were already in this function node must be connected
+            ### along the new edges, too
+            for src, dst, label in sorted(set(self.edges()) - edges_before):
+                for call_hid in self.fs[fname]:
+                    call = self.calls[call_hid]
+                    if dst == fname:
+                        self._connect_call(call, src, label, side="inputs")
+                    else:
+                        self._connect_call(call, dst, label, side="outputs")
+
+    def _get_size(self) -> int:
+        """
+        The total number of nodes, edges and elements. Expansion only ever adds
+        some of these, so it has reached a fixed point when this stays the same.
+        """
+        return (
+            len(self.nodes)
+            + len(self.edges())
+            + sum(len(elts) for elts in self.sets.values())
+        )
 
     def get_creators(self, indexer: Union[str, Set[str]]):
         # return information about the calls that created the variables in the
@@ -1088,7 +1112,7 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                current_size = res._get_size()
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1099,7 +1123,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = res._get_size()
                 if new_size == current_size:
                     break
                 if not recursive:
@@ -1115,7 +1139,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = get_nullable_union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
@@ -1207,11 +1231,11 @@ class ComputationFrame:
         `expand_forward` until a fixed point is reached.
         """
         res = self if inplace else self.copy()
-        cur_size = len(res.refs) + len(res.calls)
+        cur_size = res._get_size()
         while True:
             res.expand_back(inplace=True, skip_existing=skip_existing, verbose=verbose, reuse_existing=reuse_existing, recursive=True)
             res.expand_forward(inplace=True, skip_existing=skip_existing, verbose=verbose, reuse_existing=reuse_existing, recursive=True)
-            new_size = len(res.refs) + len(res.calls)
+            new_size = res._get_size()
             if new_size == cur_size:
                 break
             else:
-- 
2.43.0


From 853022a85db182f4a8a631b7a440670388478ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 24/59] fix: moving refs between variables of a copy leaves the
 original frame alone

---
 mandala/cf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 6a4ffd6..a96935c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1997,9 +1997,9 @@ class ComputationFrame:
             raise ValueError(f"Ref {hid} not in variable {source_vname}")
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
-        #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        #! update refinv
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -2014,7 +2014,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From 9ed618bc26739e2de5326026848870b19d69a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 25/59] fix: dropping function nodes whose calls are only
 partly connected

---
 mandala/cf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index a96935c..20c77b3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,7 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
+        hids = list(res.fs[fname])
         for hid in hids:
             res.drop_call(fname, hid)
         del res.fs[fname]
@@ -409,6 +409,7 @@ class ComputationFrame:
         Drop a call from the given function node only. This checks
         if the call is referenced by multiple function nodes.
         """
+        self.fs[fname].remove(hid)
         if (
             len(self.callinv[hid]) == 1
         ):  # if this is the only function containing the call
@@ -416,10 +417,11 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                if self.creator.get(output.hid) == hid:
+                    del self.creator[output.hid]
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
-                    self.consumers[inp.hid].remove(hid)
+                    self.consumers[inp.hid].discard(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
-- 
2.43.0


From dfa0b11db177eb77e4a45ff0fa9be03ba7b87b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 26/59] fix: cleanup and simplify drop the empty nodes

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 20c77b3..679ac96 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2092,7 +2092,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2105,7 +2105,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From 87b730703b5a9a90b7bfc47f93a156af93a959cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 27/59] fix: intersection keeps only elements that are in some
 node of the result

---
 mandala/cf.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 679ac96..7371423 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -33,6 +33,17 @@ def get_name_proj(op: Op) -> Callable[[str], str]:
         return lambda x: x
 
 
+def get_inverse_setdict(sets: Dict[str, Set[str]]) -> Dict[str, Set[str]]:
+    """
+    Given {node -> {element}}, get {element -> {nodes containing it}}
+    """
+    res = {}
+    for node, elts in sets.items():
+        for elt in elts:
+            res.setdefault(elt, set()).add(node)
+    return res
+
+
 def get_reverse_proj(call: Call) -> Callable[[str], Set[str]]:
     if call.op.name == __make_list__.name:
         return lambda x: {k for k in call.inputs} if x == "elts" else {x}
@@ -832,12 +843,26 @@ class ComputationFrame:
         out = get_adjacency_intersection(a.out, b.out)
         vs = get_setdict_intersection(a.vs, b.vs)
         fs = get_setdict_intersection(a.fs, b.fs)
-        refinv = get_setdict_intersection(a.refinv, b.refinv)
-        callinv = get_setdict_intersection(a.callinv, b.callinv)
-        creator = get_dict_intersection_over_keys(a.creator, b.creator)
-        consumers = get_setdict_intersection(a.consumers, b.consumers)
-        refs = get_dict_intersection_over_keys(a.refs, b.refs)
-        calls = get_dict_intersection_over_keys(a.calls, b.calls)
+        #! elements shared by the two CFs may be in different nodes in each of
+        # them, and are then not in any node of the intersection
+        refinv = get_inverse_setdict(vs)
+        callinv = get_inverse_setdict(fs)
+        creator = {
+            ref_hid: call_hid
+            for ref_hid, call_hid in get_dict_intersection_over_keys(
+                a.creator, b.creator
+            ).items()
+            if ref_hid in refinv and call_hid in callinv
+        }
+        consumers = {
+            ref_hid: call_hids & callinv.keys()
+            for ref_hid, call_hids in get_setdict_intersection(
+                a.consumers, b.consumers
+            ).items()
+            if ref_hid in refinv
+        }
+        refs = {hid: a.refs[hid] for hid in refinv}
+        calls = {hid: a.calls[hid] for hid in callinv}
         res = ComputationFrame(
             storage=a.storage,
             inp=inp,
-- 
2.43.0


From 32a433d62db8dae47ecff2c89ef9cd265e9981fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 28/59] fix: restricting a frame to subsets updates which nodes
 contain each element

---
 mandala/cf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7371423..7cc0d3b 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -676,14 +676,14 @@ class ComputationFrame:
         assert all(elts[node] <= sets[node] for node in elts.keys())
         out = res.out
         inp = res.inp
-        vs = {node: elts[node] for node in res.vnames}
-        fs = {node: elts[node] for node in res.fnames}
+        vs = {node: set(elts[node]) for node in res.vnames}
+        fs = {node: set(elts[node]) for node in res.fnames}
         ref_hids_subset = get_nullable_union(*vs.values())
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = get_inverse_setdict(vs)
+        callinv = get_inverse_setdict(fs)
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From 6c0898ceed70f84a02c32f64972839953f3ec585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:13 +0000
Subject: [PATCH 29/59] fix: selecting by value works for variables that are
 not next to every node

---
 mandala/cf.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7cc0d3b..1e1535f 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -590,22 +590,17 @@ class ComputationFrame:
         are connected to the given elements.
         """
         res = {}
+        #! there can be more than one edge between the same two nodes
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for edge in self.in_edges(node):
+                res.setdefault(edge[0], set()).update(
+                    self.get_adj_elts_edge(edge, hids, "back")
+                )
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for edge in self.out_edges(node):
+                res.setdefault(edge[1], set()).update(
+                    self.get_adj_elts_edge(edge, hids, "forward")
+                )
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
@@ -1967,9 +1962,10 @@ class ComputationFrame:
         return result
 
     def _add_adj_calls(self, vars_view: Dict[str, Set[str]]) -> Dict[str, Set[str]]:
-        res = vars_view.copy()
-        for vname in res.keys():
-            new = self.get_adj_elts(node=vname, hids=res[vname], direction="both")
+        res = {node: set() for node in self.nodes}
+        res.update(vars_view)
+        for vname in vars_view.keys():
+            new = self.get_adj_elts(node=vname, hids=vars_view[vname], direction="both")
             res = get_setdict_union(res, new)
         return res
 
-- 
2.43.0


From 4404b3497856fad42b3aebccec20019d03cae48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:20 +0000
Subject: [PATCH 30/59] fix: computation is traced along the labels of edges

---
 mandala/cf.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 1e1535f..57931b0 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -548,7 +548,16 @@ class ComputationFrame:
             ):  # this is a variable node; we are looking for the calls that created the hids
                 assert hids <= self.vs[dst]  # make sure the hids are valid
                 return {
-                    self.creator[hid] for hid in hids if hid in self.creator
+                    self.creator[hid]
+                    for hid in hids
+                    if hid in self.creator
+                    and any(
+                        self.calls[self.creator[hid]].outputs[name].hid == hid
+                        for name in self.get_names_projecting_to(
+                            self.creator[hid], label
+                        )
+                        if name in self.calls[self.creator[hid]].outputs
+                    )
                 } & self.fs[src]
             else:  # this is an op node; we are looking for the inputs of the calls that have the hids as outputs
                 assert hids <= self.fs[dst]  # make sure the hids are valid
@@ -1529,7 +1538,13 @@ class ComputationFrame:
             creator_inv_proj = get_reverse_proj(creator_call)
             # creator_input_uids = {r.hid for r in creator_call.inputs.values()}
             # nodes where creator call appears
-            creator_fnames = self.callinv[creator_hid] & self.in_neighbors(node=vname)
+            # ... that are connected to this variable through this output
+            creator_fnames = {
+                src
+                for src, dst, label in self.in_edges(node=vname)
+                if creator_hid
+                in self.get_adj_elts_edge((src, dst, label), {hid}, "back")
+            }
             for creator_fname in creator_fnames:
                 if include_calls:
                     if creator_fname not in res:
-- 
2.43.0


From 70cffc25052e0354caf74cdede88af90f28676d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 31/59] fix: renaming a variable to an existing name loses
 nothing

---
 mandala/cf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 57931b0..d578a80 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -265,7 +265,13 @@ class ComputationFrame:
         return res if not inplace else None
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
+        if vname not in self.vs:
+            raise ValueError(f"Variable {vname} not found in the CF")
+        if new_vname in self.nodes and new_vname != vname:
+            raise ValueError(f"Node {new_vname} already exists in the CF")
         res = self if inplace else self.copy()
+        if new_vname == vname:
+            return res if not inplace else None
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
         res.out[new_vname] = res.out[vname]
-- 
2.43.0


From 6b4e10cf7ab67ce5397740266c1e5510f809c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 32/59] fix: variables and functions of a frame never get the
 same name

---
 mandala/cf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index d578a80..fbe2c59 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2237,21 +2237,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From 93e86b35c895f3090ff17f55e9c44895ee16b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 33/59] fix: midstream and df keep the given nodes that are on
 no path to the others

---
 mandala/cf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index fbe2c59..fb34013 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -789,7 +789,8 @@ class ComputationFrame:
             for end_node in nodes:
                 if start_node != end_node:
                     edges |= self.get_all_edges_on_paths_between(start_node, end_node)
-        midstream_nodes = get_nullable_union(*[set(edge) for edge in edges])
+        #! each of the given nodes is a path from the node to itself
+        midstream_nodes = get_nullable_union(set(nodes), *[set(edge) for edge in edges])
         logging.debug(f'Selected {midstream_nodes} from {self.nodes}')
         # first, restrict to the subgraph induced by the midstream nodes
         pre_res = self.select_nodes(midstream_nodes)
@@ -1420,6 +1421,8 @@ class ComputationFrame:
         }
         if verbose:
             print(f'Found variables {vnames} containing final elements')
+        if len(vnames) == 0:
+            return pd.DataFrame(columns=self.sort_nodes(nodes))
         df = restricted_cf.get_joint_history_df(
             varnames=vnames, how=join_how,
             # excluding calls is best done at the end, because we may miss
-- 
2.43.0


From e1d1dae1897626bff0a3117bea9719a7472d74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 34/59] fix: df of a single node loads values and works for
 functions

---
 mandala/cf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index fb34013..49d700d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1405,8 +1405,11 @@ class ComputationFrame:
         if len(nodes) == 0:
             nodes = tuple(self.nodes)
         elif len(nodes) == 1:
-            values = list(self.get_var_values(nodes[0]))
-            return pd.DataFrame(values, columns=[nodes[0]])
+            node = nodes[0]
+            df = pd.DataFrame({node: pd.Series(list(self.values[node]), dtype=object)})
+            if node in self.fs and not include_calls:
+                df = df[[]]
+            return self.eval_df(df, skip_cols=lazy_vars) if values == "objs" else df
         restricted_cf = self.midstream(*nodes)
         if verbose:
             graph_desc = restricted_cf.get_graph_desc()
-- 
2.43.0


From 63853b824a8b24c1bcd88606c5a4cd270e92e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 35/59] fix: df does not join histories that have nothing in
 common

---
 mandala/cf.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 49d700d..35cc4f1 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1750,9 +1750,31 @@ class ComputationFrame:
             shared_cols = set(result.columns) & set(df.columns)
             if verbose:
                 print(f'   Merging history for the variable {varname} on columns: {shared_cols}')
-            result = pd.merge(
-                result, df, how=how, on=list(shared_cols), suffixes=("", "")
-            )
+            #! histories which have no value in any of the shared columns have
+            # nothing in common, so they must not be joined with each other
+            shared_cols = [col for col in result.columns if col in shared_cols]
+            result_joins = result[shared_cols].notnull().any(axis=1)
+            df_joins = df[shared_cols].notnull().any(axis=1)
+            parts = []
+            if result_joins.any() and df_joins.any():
+                parts.append(
+                    pd.merge(
+                        result[result_joins], df[df_joins],
+                        how=how, on=shared_cols, suffixes=("", ""),
+                    )
+                )
+            elif how == "outer":
+                parts += [result[result_joins], df[df_joins]]
+            if how == "outer":
+                parts += [result[~result_joins], df[~df_joins]]
+            parts = [part for part in parts if len(part) > 0]
+            columns = list(result.columns) + [
+                col for col in df.columns if col not in shared_cols
+            ]
+            if parts:
+                result = pd.concat(parts, ignore_index=True).reindex(columns=columns)
+            else:
+                result = pd.DataFrame(columns=columns)
         # go back to refs
         result = result.applymap(eval_hids)
         return self._sort_df(result)
-- 
2.43.0


From 8c81299e20d455f9aaefac8fd7b1538a2f424863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 36/59] fix: expansion connects calls along every item of a
 list

---
 mandala/cf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 35cc4f1..48616e2 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -978,7 +978,10 @@ class ComputationFrame:
                     connected_vnames = self.refinv[ref.hid] & set(available_nodes)
                     if not connected_vnames:
                         continue
-                    identifying_variables[label] = connected_vnames
+                    # several inputs/outputs may share a label (e.g. list elements)
+                    identifying_variables[label] = (
+                        identifying_variables.get(label, set()) | connected_vnames
+                    )
             # get a hashable canonical representation of the group
             group_id = (
                 op_id,
-- 
2.43.0


From 7c951ae1db018f21a6329a9b5c06bed89d5c151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 37/59] fix: frames where a name is a variable in one and a
 function in the other have no union

---
 mandala/cf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 48616e2..54d59b7 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -816,6 +816,9 @@ class ComputationFrame:
         What it says on the tin: take the union over both the topology and the
         instance data of the two computation frames.
         """
+        conflicts = (a.vnames | b.vnames) & (a.fnames | b.fnames)
+        if conflicts:
+            raise ValueError(f"Names of both variables and functions: {conflicts}")
         inp = get_adjacency_union(a.inp, b.inp)
         out = get_adjacency_union(a.out, b.out)
         vs = get_setdict_union(a.vs, b.vs)
-- 
2.43.0


From 22857342e3dda06726765f72d244fd704fe40266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:34 +0000
Subject: [PATCH 38/59] fix: simple paths in graphs with cycles

---
 mandala/utils.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index 92ab773..6fa5d5c 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -462,13 +462,7 @@ def get_edges_in_paths(
         for neighbor in graph[node]:
             if neighbor not in visited:
                 dfs(neighbor, path + [(node, neighbor)])
-            elif (node, neighbor) not in valid_edges and (node, neighbor) not in path:
-                # If we've visited this neighbor before but this edge isn't marked yet,
-                # it might be part of a cycle that leads to B
-                dfs(neighbor, path + [(node, neighbor)])
-        if node in visited:
-            # we may have removed `node` already if it was part of a cycle
-            visited.remove(node)
+        visited.remove(node)
 
     visited = set()
     valid_edges = set()
-- 
2.43.0


From db6be2e09be681793d23ef8bc11b4fc04f7d4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 39/59] fix: frames record all creators and consumers among
 their elements after union and expansion

---
 mandala/cf.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 54d59b7..8b8720c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -421,6 +421,20 @@ class ComputationFrame:
                 self.creator[ref.hid] = call.hid
             self.add_ref(vname, ref, allow_existing=True)
 
+    def _link_elements(self):
+        """
+        Record which refs in the CF are created/consumed by which calls in the
+        CF. Needed when refs may have been added next to calls that were in the
+        CF before them.
+        """
+        for hid, call in self.calls.items():
+            for ref in call.inputs.values():
+                if ref.hid in self.refs:
+                    self.consumers.setdefault(ref.hid, set()).add(hid)
+            for ref in call.outputs.values():
+                if ref.hid in self.refs:
+                    self.creator[ref.hid] = hid
+
     def drop_call(self, fname: str, hid: str):
         """
         Drop a call from the given function node only. This checks
@@ -843,6 +857,7 @@ class ComputationFrame:
             refs=refs,
             calls=calls,
         )
+        res._link_elements()
         res._check()  #! not every union results in a valid CF
         return res
 
@@ -1121,6 +1136,7 @@ class ComputationFrame:
                         self._connect_call(call, src, label, side="inputs")
                     else:
                         self._connect_call(call, dst, label, side="outputs")
+        self._link_elements()
 
     def _get_size(self) -> int:
         """
-- 
2.43.0


From 36704105f6cbf544c89a03385b139b7d228f7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 40/59] fix: no adjacency entries for names that are not nodes
 of an intersection

---
 mandala/cf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 8b8720c..ca1f968 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -868,10 +868,12 @@ class ComputationFrame:
         """
         ditto, but for intersection
         """
-        inp = get_adjacency_intersection(a.inp, b.inp)
-        out = get_adjacency_intersection(a.out, b.out)
         vs = get_setdict_intersection(a.vs, b.vs)
         fs = get_setdict_intersection(a.fs, b.fs)
+        #! a name may be a variable in one CF and a function in the other
+        nodes = vs.keys() | fs.keys()
+        inp = {k: v for k, v in get_adjacency_intersection(a.inp, b.inp).items() if k in nodes}
+        out = {k: v for k, v in get_adjacency_intersection(a.out, b.out).items() if k in nodes}
         #! elements shared by the two CFs may be in different nodes in each of
         # them, and are then not in any node of the intersection
         refinv = get_inverse_setdict(vs)
-- 
2.43.0


From a6f35d02adc51db5bc76dcf75acb4e47bf4f36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 41/59] fix: df joins histories with several elements in a
 shared column

---
 mandala/cf.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ca1f968..f762af3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1723,7 +1723,7 @@ class ComputationFrame:
 
         def extract_hids(
             x: Union[None, Ref, Call, Set[Ref], Set[Call]]
-        ) -> Union[None, str, Set[str]]:
+        ) -> Optional[str]:
             """
             Convert a Ref or Call object to its hid, or a set of Refs/Calls to
             a canonical hashable representation.
@@ -1733,16 +1733,19 @@ class ComputationFrame:
             elif isinstance(x, (Ref, Call)):
                 return x.hid
             else:
-                # necessary to make it canonically hashable 
-                return tuple(sorted({elt.hid for elt in x}))
+                # a canonical representation; a tuple would not do, because
+                # pandas may treat columns of tuples as multi-indices when
+                # merging
+                return ",".join(sorted({elt.hid for elt in x}))
 
         def eval_hids(
-            hids: Union[None, str, Set[str]]
+            hids: Optional[str]
         ) -> Union[None, Ref, Call, RefCollection, CallCollection]:
             if pd.isnull(hids):
                 return None
-            elif isinstance(hids, str):
-                return self.refs[hids] if hids in self.refs else self.calls[hids]
+            hids = hids.split(",")
+            if len(hids) == 1:
+                return self.refs[hids[0]] if hids[0] in self.refs else self.calls[hids[0]]
             else:
                 sorted_objs = tuple(
                     sorted(
-- 
2.43.0


From 533afad9cf4c57741438d2a6ba2e0eee614d0fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 42/59] fix: content ids of frozensets do not depend on their
 order of iteration

---
 mandala/utils.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index 6fa5d5c..858d67d 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -5,6 +5,7 @@ import inspect
 from inspect import Parameter
 import sqlite3
 from .config import *
+from joblib.hashing import NumpyHasher
 from abc import ABC, abstractmethod
 from typing import Hashable, TypeVar
 if Config.has_prettytable:
@@ -72,6 +73,34 @@ def _conservative_equality_check(safe_value: Any, unknown_value: Any) -> bool:
         )
 
 
+class _ContentHasher(NumpyHasher):
+    """
+    `joblib`'s hasher depends on the order of iteration over a frozenset, and
+    sorts frozensets in sets and dicts by inclusion, which is not a total order.
+    """
+
+    dispatch = NumpyHasher.dispatch.copy()
+
+    def save_frozenset(self, obj):
+        self.save((frozenset, sorted(get_content_hash(x) for x in obj)))
+
+    dispatch[frozenset] = save_frozenset
+
+    def save_set(self, obj):
+        if any(isinstance(x, frozenset) for x in obj):
+            self.save((set, sorted(get_content_hash(x) for x in obj)))
+        else:
+            NumpyHasher.save_set(self, obj)
+
+    dispatch[set] = save_set
+
+    def _batch_setitems(self, items, *args):
+        items = list(items)
+        if any(isinstance(k, frozenset) for k, _ in items):
+            items = [(get_content_hash(k), v) for k, v in items]
+        NumpyHasher._batch_setitems(self, items, *args)
+
+
 def get_content_hash(obj: Any) -> str:
     if hasattr(obj, "__get_mandala_dict__"):
         obj = obj.__get_mandala_dict__()
@@ -87,7 +116,7 @@ def get_content_hash(obj: Any) -> str:
             "values": obj.values,
             "index": obj.index,
         }
-    result = joblib.hash(obj)  # this hash is canonical wrt python collections
+    result = _ContentHasher(hash_name="md5").hash(obj)  # this hash is canonical wrt python collections
     if result is None:
         raise RuntimeError("joblib.hash returned None")
     return result
-- 
2.43.0


From b49ecfe21d89e02a834159c39ef1d1c532860393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 43/59] fix: memoized functions can be called by traced
 functions

---
 mandala/deps/tracers/dec_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..7af84ee 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -52,6 +52,9 @@ class TrackedDict(dict):
 
     def __getitem__(self, __key: str) -> Any:
         result = self.__original__.__getitem__(__key)
+        if type(result).__name__ == Config.func_interface_cls_name:
+            # calls to memoized functions are traced by the storage
+            return result
         if TracerState.tracer is not None:
             tracer = TracerState.tracer
             unwrapped_result = unwrap_decorators(result, strict=False)
-- 
2.43.0


From 4488849a0ee293bec67c3cea66cbc13bda2172c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 44/59] fix: a tracked function that raises leaves the tracer's
 call stack

---
 mandala/deps/tracers/dec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 7af84ee..2844f9a 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -146,9 +146,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally:
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
-- 
2.43.0


From 6179dbf0c8ff31d17b5dcf6b58d6086fdde45d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 45/59] fix: strict tracing looks at the closure of the
 function itself

---
 mandala/deps/tracers/dec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 2844f9a..575ffdf 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -238,7 +238,7 @@ class DecTracer(TracerABC):
         qualname = func.__qualname__
         # check for closure variables
         closure_names = get_closure_names(
-            code_obj=func.__code__, func_qualname=qualname
+            code_obj=extract_code(obj=func), func_qualname=qualname
         )
         if len(closure_names) > 0:
             msg = f"Found closure variables accessed by function {module_name}.{qualname}:\n{closure_names}"
-- 
2.43.0


From 3bf925df529eb7418c304910ae903e9974cccdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 46/59] fix: nested memoized calls keep the caller's trace and
 are among its dependencies

---
 mandala/deps/tracers/dec_impl.py | 11 +++++++
 mandala/storage.py               | 50 ++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 575ffdf..9995955 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -296,6 +296,17 @@ class DecTracer(TracerABC):
             trace_obj.graph.add_edge(trace_obj.call_stack[-1], node)
         return
 
+    def register_failed_call(self, graph: DependencyGraph):
+        """
+        Take over what a memoized call that raised an exception depended on.
+        """
+        for node in graph.nodes.values():
+            self.graph.add_node(node)
+        self.graph.edges.update(graph.edges)
+        if len(self.call_stack) > 0:
+            for root in graph.roots:
+                self.graph.add_edge(self.call_stack[-1], graph.nodes[root])
+
     @staticmethod
     def leaf_signal(data):
         # a way to detect the end of a trace
diff --git a/mandala/storage.py b/mandala/storage.py
index 5d46f3c..d561fc1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -11,6 +11,7 @@ from .deps.versioner import Versioner, CodeState
 from .deps.utils import get_dep_key_from_func, extract_func_obj
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
+from .deps.model import TerminalData
 
 from .storage_utils import (
     DBAdapter,
@@ -842,6 +843,46 @@ class Storage:
 
         NOTE: this function does NOT save the call to the storage. 
         """
+        if not self.versioned or op.__structural__:
+            return self._call_internal(op, storage_inputs, storage_tps, bound_arguments)
+        # nothing that happens inside this call belongs to the trace of the
+        # caller, except for the call as a whole
+        tracer_cls = self.cached_versioner.TracerCls
+        suspended_trace_obj = tracer_cls.get_active_trace_obj()
+        tracer_cls.set_active_trace_obj(trace_obj=None)
+        tracer = self.cached_versioner.make_tracer()
+        try:
+            outputs, main_call, calls = self._call_internal(
+                op, storage_inputs, storage_tps, bound_arguments, tracer_option=tracer
+            )
+        except BaseException:
+            if isinstance(suspended_trace_obj, DecTracer):
+                # there is no call to point to
+                suspended_trace_obj.register_failed_call(tracer.graph)
+            raise
+        finally:
+            tracer_cls.set_active_trace_obj(trace_obj=suspended_trace_obj)
+        if suspended_trace_obj is not None:
+            tracer_cls.register_leaf_event(
+                trace_obj=suspended_trace_obj,
+                data=TerminalData(
+                    op_internal_name=op.name,
+                    op_version=op.version,
+                    call_content_version=main_call.content_version,
+                    call_semantic_version=main_call.semantic_version,
+                    dep_key=get_dep_key_from_func(func=op.f),
+                ),
+            )
+        return outputs, main_call, calls
+
+    def _call_internal(
+        self,
+        op: Op,
+        storage_inputs: Dict[str, Any],
+        storage_tps: Dict[str, Type],
+        bound_arguments: Optional[inspect.BoundArguments] = None,
+        tracer_option: Optional[TracerABC] = None,
+    ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         ### wrap the inputs
         if not op.__structural__: logger.debug(f"Calling {op.name} with args {bound_arguments}.")
 
@@ -855,12 +896,6 @@ class Storage:
         if len(input_calls) > 0:
             if not op.__structural__: logger.debug(f"Collected {len(input_calls)} calls for inputs.")
 
-        if must_version_call:
-            suspended_trace_obj = self.cached_versioner.TracerCls.get_active_trace_obj()
-            self.cached_versioner.TracerCls.set_active_trace_obj(trace_obj=None)
-        else:
-            suspended_trace_obj = None
-
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
         call_option = self.lookup_call(
@@ -872,9 +907,6 @@ class Storage:
             versioner=self.cached_versioner if must_version_call else None,
             must_version=must_version_call,
         )
-        tracer_option = (
-            self.cached_versioner.make_tracer() if must_version_call and not op.__structural__ else None
-        )
 
         call_exists = (call_option is not None)
         if call_exists:
-- 
2.43.0


From 819f7c784e47bbfae79d6446edc1872cffaf9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 47/59] fix: memoized functions run without memoization are
 dependencies of the traced call

---
 mandala/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index d561fc1..6819bff 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1266,7 +1266,10 @@ class Storage:
             # now unwrap the values of the arguments
             args = tuple([self.unwrap(arg) for arg in args])
             kwargs = {k: self.unwrap(v) for k, v in kwargs.items()}
-            return op.f(*args, **kwargs)
+            f = op.f
+            if self.versioned and DecTracer.get_active_trace_obj() is not None:
+                f = track(f)
+            return f(*args, **kwargs)
         elif self.mode == "run":
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
-- 
2.43.0


From 5d66c982ce684e4c79d1970c3f69f6abc25a1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 48/59] fix: calls that were dropped can be computed again in a
 versioned storage

---
 mandala/deps/versioner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 530952e..57bcb34 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -423,7 +423,12 @@ class Versioner:
             "content_version": version.content_version,
             "outputs": outputs,
         }
-        if not is_recompute:
+        # the call may have been dropped since this row was added
+        is_known = (
+            (self.df["pre_call_uid"] == pre_call_uid)
+            & (self.df["semantic_version"] == version.semantic_version)
+        ).any()
+        if not is_recompute and not is_known:
             self._check_semantic_distinguishability(
                 component=component, pre_call_uid=pre_call_uid, call_version=version
             )
-- 
2.43.0


From 282bc98d69e26a35b52b7e013127ea5aed17a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 49/59] fix: a version chosen for a component is saved

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 6819bff..53c0943 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1073,7 +1073,7 @@ class Storage:
             is_semantic_change=is_semantic_change,
             code_state=code_state,
         )
-        self.sources["versioned"] = versioner
+        self.save_versioner(versioner=versioner, conn=conn)
         return result
 
     @transaction
-- 
2.43.0


From 8b640ecc2970fbbba509cf74c3c1cecddd93f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 50/59] fix: outputs that cannot be stored fail before a
 version is recorded

---
 mandala/storage.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 53c0943..bf40864 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -960,6 +960,23 @@ class Storage:
             else:
                 returns = f(*args, **kwargs)
 
+        # outputs that cannot be stored must fail before anything is recorded
+        outputs_dict, outputs_annotations = parse_returns(
+            sig=sig, returns=returns, nout=op.nout, output_names=op.output_names
+        )
+        output_tps = {
+            k: Type.from_annotation(annotation=v)
+            for k, v in outputs_annotations.items()
+        }
+        output_refs = {}
+        for k, v in outputs_dict.items():
+            if isinstance(v, Ref):
+                output_refs[k] = v
+            elif isinstance(output_tps[k], AtomType):
+                output_refs[k] = wrap_atom(v)
+            else:  # recurse on types
+                output_refs[k], _ = self.construct(tp=output_tps[k], val=v)
+
         if must_version_call:
             # check the trace against the code state hypothesis
             self.cached_versioner.apply_state_hypothesis(
@@ -979,14 +996,7 @@ class Storage:
             else (None, None)
         )
 
-        # wrap the outputs
-        outputs_dict, outputs_annotations = parse_returns(
-            sig=sig, returns=returns, nout=op.nout, output_names=op.output_names
-        )
-        output_tps = {
-            k: Type.from_annotation(annotation=v)
-            for k, v in outputs_annotations.items()
-        }
+        # set the history of the outputs
         call_content_id = op.get_call_content_id(wrapped_inputs, semantic_version=semantic_version)
         call_hid = op.get_call_history_id(wrapped_inputs, semantic_version=semantic_version)
         output_history_ids = op.get_output_history_ids(
@@ -996,20 +1006,15 @@ class Storage:
         wrapped_outputs = {}
         output_calls = []
         for k, v in outputs_dict.items():
+            final = output_refs[k].with_hid(hid=output_history_ids[k])
             if isinstance(v, Ref):
-                final = v.with_hid(hid=output_history_ids[k])
                 if not op.__structural__:
                     final, output_calls_for_output = self.destruct(final, tp=None)
                     output_calls.extend(output_calls_for_output)
-                wrapped_outputs[k] = final
-            elif isinstance(output_tps[k], AtomType):
-                wrapped_outputs[k] = wrap_atom(v, history_id=output_history_ids[k])
-            else:  # recurse on types
-                start, _ = self.construct(tp=output_tps[k], val=v)
-                start = start.with_hid(hid=output_history_ids[k])
-                final, output_calls_for_output = self.destruct(start, tp=output_tps[k])
+            elif not isinstance(output_tps[k], AtomType):  # recurse on types
+                final, output_calls_for_output = self.destruct(final, tp=output_tps[k])
                 output_calls.extend(output_calls_for_output)
-                wrapped_outputs[k] = final
+            wrapped_outputs[k] = final
         main_call = Call(
             op=op,
             cid=call_content_id,
-- 
2.43.0


From 7c5e3eaec80b5064b3d0be84ae1fdbbde0190508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 51/59] fix: global variables belong to the module of the
 function that reads them

---
 mandala/deps/tracers/dec_impl.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 9995955..de02f31 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -45,6 +45,11 @@ class TrackedDict(dict):
     """
     def __init__(self, original: dict, verbose: bool = False):
         self.__original__ = original
+        self.module_name = (
+            original.module_name
+            if isinstance(original, TrackedDict)
+            else original.get("__name__")
+        )
         self.verbose = verbose
     
     def __repr__(self) -> str:
@@ -75,7 +80,9 @@ class TrackedDict(dict):
                         f"Function/class {result} from module {unwrapped_result.__module__} is accessed but not tracked"
                     )
             elif is_global_val(result):
-                tracer.register_global_access(key=__key, value=result)
+                tracer.register_global_access(
+                    key=__key, value=result, module_name=self.module_name
+                )
             else:
                 if (
                     DecTracerConfig.restrict_global_accesses
@@ -262,13 +269,15 @@ class DecTracer(TracerABC):
             self.graph.roots.add(node.key)
         return node
 
-    def register_global_access(self, key: str, value: Any):
+    def register_global_access(
+        self, key: str, value: Any, module_name: Optional[str] = None
+    ):
         if not self.track_globals:
             return
         assert len(self.call_stack) > 0
         calling_node = self.call_stack[-1]
         node = GlobalVarNode.from_obj(
-            obj=value, dep_key=(calling_node.module_name, key), 
+            obj=value, dep_key=(module_name or calling_node.module_name, key), 
             skip_unhashable=self.skip_unhashable_globals,
             skip_silently=self.skip_globals_silently
         )
-- 
2.43.0


From a981b2fe492fb201608374200f4d1e9af6bfd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 52/59] fix: sessions see the code versions recorded by other
 sessions

---
 mandala/storage.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mandala/storage.py b/mandala/storage.py
index bf40864..a2c8feb 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1031,6 +1031,16 @@ class Storage:
     ############################################################################
     @transaction
     def get_versioner(self, conn: Optional[sqlite3.Connection] = None) -> Versioner:
+        # unless this session has uncommitted work of its own, take into account
+        # what other sessions have saved in the meantime
+        if (
+            self.cached_versioner is None
+            and len(self.calls.dirty_hids) == 0
+            and self.sources.persistent.exists("versioner", conn=conn)
+        ):
+            self.sources.cache["versioner"] = self.sources.persistent.get(
+                "versioner", conn=conn
+            )
         result = self.sources["versioner"]
         if result is None:
             raise ValueError("This storage is not versioned.")
-- 
2.43.0


From e9bc2631820e07384d05b3db720e310de206bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 53/59] fix: a context that was not entered leaves no mode
 behind

---
 mandala/storage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a2c8feb..97beb58 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1311,7 +1311,12 @@ class Storage:
 
     def __enter__(self) -> "Storage":
         if self.versioned:
-            versioner, code_state = self.sync_code()
+            try:
+                versioner, code_state = self.sync_code()
+            except BaseException:
+                # the context was not entered
+                self._next_mode = self._mode_stack[-1] if self._mode_stack else 'run'
+                raise
             self.cached_versioner = versioner
             self.code_state = code_state
         self._outer_contexts.append(Context.current_context)
-- 
2.43.0


From e472f74172d472e0c7c649325d75db7a5726b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 54/59] fix: static and class methods of tracked classes are
 dependencies

---
 mandala/deps/crawler.py          | 2 ++
 mandala/deps/tracers/dec_impl.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 25f109c..4826001 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -24,6 +24,8 @@ def crawl_obj(
     """
     Find functions and optionally methods native to the module of this object.
     """
+    if isinstance(obj, (staticmethod, classmethod)):
+        obj = obj.__func__
     if is_callable_obj(obj=obj, strict=strict):
         if isinstance(unwrap_decorators(obj, strict=False), types.BuiltinFunctionType):
             return
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index de02f31..5c92e38 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -140,6 +140,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
         for k, v in obj.__dict__.items():
             if isinstance(v, (types.FunctionType, type)):
                 setattr(obj, k, track(v))
+            elif isinstance(v, (staticmethod, classmethod)) and isinstance(
+                v.__func__, types.FunctionType
+            ):
+                setattr(obj, k, type(v)(track(v.__func__)))
         TracerState.registry[(obj.__module__, obj.__qualname__)] = obj
         return obj
     elif isinstance(obj, types.FunctionType):
-- 
2.43.0


From f2f35909e55ddc535a2201931a5ecc34eea1cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 55/59] fix: dropping calls, provenance queries and cf() lost
 elements of iterables that can be iterated over once

---
 mandala/storage.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 97beb58..db19b82 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -420,7 +420,6 @@ class Storage:
     def get_call(self, hid: str, lazy: bool) -> Call:
         return self.mget_call([hid], in_memory=lazy)[0]
 
-    @transaction
     def drop_calls(self, calls_or_hids: Union[Iterable[str], Iterable[Call]], delete_dependents: bool, 
                    conn: Optional[sqlite3.Connection] = None):
         """
@@ -430,6 +429,13 @@ class Storage:
         Removing from the cache is necessary to ensure that future lookups don't
         hit a false positive.
         """
+        # it may be possible to iterate over the calls only once, while the
+        # transaction may be tried several times
+        self._drop_calls(list(calls_or_hids), delete_dependents=delete_dependents, conn=conn)
+
+    @transaction
+    def _drop_calls(self, calls_or_hids: Union[List[str], List[Call]], delete_dependents: bool,
+                    conn: Optional[sqlite3.Connection] = None):
         # figure out what we're given    
         if all(isinstance(c, Call) for c in calls_or_hids):
             hids = [c.hid for c in calls_or_hids]
@@ -468,14 +474,14 @@ class Storage:
     def get_creators(self, ref_hids: Iterable[str]) -> List[Call]:
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        call_hids = self.call_storage.get_creator_hids(ref_hids)
+        call_hids = self.call_storage.get_creator_hids(list(ref_hids))
         # return [self.get_call(call_hid, lazy=True) for call_hid in call_hids]
         return self.mget_call(hids=call_hids, in_memory=True)
 
     def get_consumers(self, ref_hids: Iterable[str]) -> List[Call]:
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        call_hids = self.call_storage.get_consumer_hids(ref_hids)
+        call_hids = self.call_storage.get_consumer_hids(list(ref_hids))
         # return [self.get_call(call_hid, lazy=True) for call_hid in call_hids]
         return self.mget_call(hids=call_hids, in_memory=True)
 
@@ -1242,6 +1248,8 @@ class Storage:
         """
         Main user-facing function to create a computation frame.
         """
+        if not isinstance(source, (Op, Ref, dict)):
+            source = list(source) # it may be possible to iterate only once
         if isinstance(source, Op):
             return ComputationFrame.from_op(storage=self, f=source)
         elif isinstance(source, Ref):
-- 
2.43.0


From 54c9fbb9cb2b76c2f2e71512c935e1490ac320dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 56/59] fix: operations of computation frames on iterables that
 can be iterated over once, or that are views of the frame

---
 mandala/cf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index f762af3..66a0627 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -203,7 +203,7 @@ class ComputationFrame:
         if with_dependents:
             raise NotImplementedError()
         res = self if inplace else self.copy()
-        for node in nodes:
+        for node in list(nodes): # could be a view of the nodes of this CF
             res.drop_node(node, inplace=True)
         return res if not inplace else None
 
@@ -638,11 +638,11 @@ class ComputationFrame:
         connecting pairs of these nodes.
         """
         #! must copy all sets etc. to avoid modifying the original CF
-        nodes_not_in_cf = set(nodes) - self.nodes
+        nodes = set(nodes)
+        nodes_not_in_cf = nodes - self.nodes
         if len(nodes_not_in_cf) > 0:
             raise ValueError(f"Nodes {nodes_not_in_cf} not found in the CF")
         res = self.copy()
-        nodes = set(nodes)
         edges = {
             (src, dst, label)
             for src, dst, label in res.edges()
@@ -1191,8 +1191,7 @@ class ComputationFrame:
                 if not recursive:
                     break
             return res if not inplace else None
-        if isinstance(varnames, str):
-            varnames = {varnames}
+        varnames = {varnames} if isinstance(varnames, str) else set(varnames)
         
         # TODO: when expanding forward, we don't really want to start from the 
         # sink elements, because there may be non-sink elements that don't have
@@ -1359,6 +1358,7 @@ class ComputationFrame:
         """
         Return a topological sort of the given nodes
         """
+        nodes = set(nodes)
         return [node for node in self.topsort_modulo_sccs() if node in nodes]
 
     def _sort_df(self, df: pd.DataFrame) -> pd.DataFrame:
@@ -1500,6 +1500,7 @@ class ComputationFrame:
             values = self.storage.unwrap(df.values.tolist())
             return pd.DataFrame(values, columns=df.columns)
         else:
+            skip_cols = set(skip_cols)
             columns_dict = {col: df[col] if col in skip_cols else self.storage.unwrap(df[col].values.tolist()) for col in df.columns}
             return pd.DataFrame(columns_dict)
 
@@ -1861,7 +1862,8 @@ class ComputationFrame:
             return self.select_nodes([indexer])
         elif isinstance(indexer, ComputationFrame):
             raise NotImplementedError()
-        elif all([isinstance(k, str) for k in indexer]):
+        indexer = list(indexer)
+        if all([isinstance(k, str) for k in indexer]):
             return self.select_nodes(list(sorted(indexer)))
     
     def get_reachable_elts(
-- 
2.43.0


From 7cf05008c442b77d6b41381017974444cab0e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 57/59] fix: a global variable that changed inside a context
 was reported by an unrelated error

---
 mandala/deps/versioner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 57bcb34..dc32504 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -223,7 +223,7 @@ class Versioner:
                         print(f"Expected: {hypothesis.nodes[trace_dep_key].content()}")
                         print(f"Actual: {trace_node.content()}")
                         print(
-                            f"Diff:\n{_get_colorized_diff(hypothesis.nodes[trace_dep_key].content(), trace_node.content())}"
+                            f"Diff:\n{_get_colorized_diff(hypothesis.nodes[trace_dep_key].readable_content(), trace_node.readable_content())}"
                         )
                         raise ValueError(f"Content mismatch for {trace_dep_key}")
                 elif isinstance(trace_node, CallableNode):
-- 
2.43.0


From c029c37973b83d7b62eec4f445cb82152941c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 58/59] fix: arguments of types derived from list, dict, tuple
 or set reached functions as plain collections

---
 mandala/model.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index f45139a..0c20f20 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -388,17 +388,40 @@ class SetRef(Ref):
         return elt in self.obj
 
 
+def _restore_type(original: Any, plain: Union[list, dict, tuple, set]) -> Any:
+    """
+    Given the elements of a builtin collection `plain` that were computed from 
+    the elements of `original`, return a collection of the type of `original`, 
+    which could be a subclass (a namedtuple, a defaultdict, ...)
+    """
+    if type(original) is type(plain) or isinstance(original, Ref):
+        return plain
+    if isinstance(original, tuple):
+        if all(x is y for x, y in zip(original, plain)):
+            return original
+        elif hasattr(original, "_make"): # a namedtuple
+            return original._make(plain)
+        else:
+            return type(original)(plain)
+    result = copy.copy(original)
+    result.clear()
+    if isinstance(original, list):
+        result.extend(plain)
+    else:
+        result.update(plain)
+    return result
+
 def recurse_on_ref_collections(f: Callable, obj: Any, **kwargs: Any) -> Any:
     if isinstance(obj, AtomRef):
         return f(obj, **kwargs)
     elif isinstance(obj, (list, ListRef)):
-        return [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj]
+        return _restore_type(obj, [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj])
     elif isinstance(obj, (dict, DictRef)):
-        return {k: recurse_on_ref_collections(f, v, **kwargs) for k, v in obj.items()}
+        return _restore_type(obj, {k: recurse_on_ref_collections(f, v, **kwargs) for k, v in obj.items()})
     elif isinstance(obj, tuple):
-        return tuple(recurse_on_ref_collections(f, elt, **kwargs) for elt in obj)
+        return _restore_type(obj, tuple(recurse_on_ref_collections(f, elt, **kwargs) for elt in obj))
     elif isinstance(obj, set):
-        return {recurse_on_ref_collections(f, elt, **kwargs) for elt in obj}
+        return _restore_type(obj, {recurse_on_ref_collections(f, elt, **kwargs) for elt in obj})
     elif isinstance(obj, RefCollection):
         return ValueCollection(values=[recurse_on_ref_collections(f, ref, **kwargs) for ref in obj.refs])
     else:
-- 
2.43.0


From 3515555562df3e88207b6e779008bfd3b9d9ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 59/59] fix: white space at the end of a line of a string
 literal is part of a function's source

---
 mandala/deps/model.py | 10 +++++++---
 mandala/deps/utils.py | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/model.py b/mandala/deps/model.py
index 4187c17..6bd935f 100644
--- a/mandala/deps/model.py
+++ b/mandala/deps/model.py
@@ -16,6 +16,7 @@ from .utils import (
     extract_code,
     unknown_function,
     UNKNOWN_GLOBAL_VAR,
+    get_lines_ending_in_strings,
 )
 
 
@@ -156,10 +157,13 @@ class CallableNode(Node):
             else:
                 raise RuntimeError(msg)
         # strip whitespace to prevent different sources looking the same in the
-        # ui
+        # ui (except in string literals, where it matters)
         lines = source.splitlines()
-        lines = [line.rstrip() for line in lines]
-        source = "\n".join(lines)
+        stripped = [line.rstrip() for line in lines]
+        if stripped != lines:
+            for i in get_lines_ending_in_strings(lines):
+                stripped[i] = lines[i]
+        source = "\n".join(stripped)
         return source
 
     def content(self) -> str:
diff --git a/mandala/deps/utils.py b/mandala/deps/utils.py
index c056be9..94e5eaf 100644
--- a/mandala/deps/utils.py
+++ b/mandala/deps/utils.py
@@ -2,6 +2,8 @@ import types
 import dis
 import importlib
 import gc
+import io
+import tokenize
 from typing import Literal
 
 from ..common_imports import *
@@ -243,3 +245,25 @@ def get_func_qualname_fallback(
     else:
         func_qualname = func_name
     return func_qualname
+
+
+def get_lines_ending_in_strings(lines: List[str]) -> List[int]:
+    """
+    The indices of the lines of some source code whose end is inside a
+    (multi-line) string literal.
+    """
+    result = []
+    fstring_starts = []
+    try:
+        for token in tokenize.generate_tokens(io.StringIO("\n".join(lines)).readline):
+            name = tokenize.tok_name[token.type]
+            if name == "STRING":
+                result.extend(range(token.start[0] - 1, token.end[0] - 1))
+            elif name == "FSTRING_START":
+                fstring_starts.append(token.start[0])
+            elif name == "FSTRING_END":
+                result.extend(range(fstring_starts.pop() - 1, token.end[0] - 1))
+    except (tokenize.TokenError, SyntaxError):
+        # not a complete piece of code
+        pass
+    return result
-- 
2.43.0

