From 323594f2084e1bfa8cc40f14a539896c88fb0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 01/23] verif: run-time limits in verification builds
 (URKEL_VERIF)

---
 src/store.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/store.c b/src/store.c
index 24af568..0f79548 100644
--- a/src/store.c
+++ b/src/store.c
@@ -34,6 +34,22 @@
 #define CACHE_HASH(k) urkel_murmur3(k, URKEL_HASH_SIZE, 0)
 #define CACHE_EQUAL(a, b) (memcmp(a, b, URKEL_HASH_SIZE) == 0)
 
+#ifdef URKEL_VERIF
+/* Verification builds can lower the limits at run time. */
+size_t urkel_verif_max_file_size = MAX_FILE_SIZE;
+size_t urkel_verif_max_open_files = MAX_OPEN_FILES;
+size_t urkel_verif_write_buffer = WRITE_BUFFER;
+size_t urkel_verif_read_buffer = READ_BUFFER;
+#  undef MAX_FILE_SIZE
+#  undef MAX_OPEN_FILES
+#  undef WRITE_BUFFER
+#  undef READ_BUFFER
+#  define MAX_FILE_SIZE urkel_verif_max_file_size
+#  define MAX_OPEN_FILES urkel_verif_max_open_files
+#  define WRITE_BUFFER urkel_verif_write_buffer
+#  define READ_BUFFER urkel_verif_read_buffer
+#endif
+
 /*
  * Structs
  */
-- 
2.43.0


From c4edaaf08eddc391b30a69eb197e6632eaec560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 02/23] fix: keep the full size of values over 255 bytes in
 their pointers

---
 src/nodes.c | 2 +-
 src/nodes.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..c428df7 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..0f84491 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From 831a5916148f3ffa567db6f673b98eef156387fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 03/23] fix: make the iterator stack deep enough for any tree

---
 src/tree.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..32aeb76 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -15,6 +15,14 @@
 #include "store.h"
 #include "util.h"
 
+/*
+ * Defines
+ */
+
+/* One level per key bit, plus one for the leaf. Stored
+   nodes take two entries (the reference and the node). */
+#define URKEL_ITER_DEPTH ((URKEL_KEY_BITS + 1) * 2)
+
 /*
  * Structs
  */
@@ -45,7 +53,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[URKEL_ITER_DEPTH];
   size_t stack_len;
   int done;
   int transient;
@@ -1138,7 +1146,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < URKEL_ITER_DEPTH);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From 40abdeda2c2d9cea804f81c0fa6d34d44bbe839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 04/23] fix: free the nodes of a malformed proof

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index 32aeb76..ea57af9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -795,6 +795,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From 356b8bafea497561ad6c3cbc0c42978fadb2641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 05/23] fix: do not clear an uninitialized node when a root is
 unknown

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 0f79548..d783d7a 100644
--- a/src/store.c
+++ b/src/store.c
@@ -884,7 +884,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From 684b8dd38d62dd50dd8f4b3ba1804932ea60ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 06/23] fix: free the tree when opening fails

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index ea57af9..2764565 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -594,6 +594,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
-- 
2.43.0


From d0251b08d6609d7aba4d137f02623773a5fd8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 07/23] fix: leave room for the separator and the terminator in
 paths

---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index d783d7a..71add4f 100644
--- a/src/store.c
+++ b/src/store.c
@@ -916,7 +916,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1181,7 +1181,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1244,7 +1244,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


From 663952b178b06426ad4718864293986f1e486d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 08/23] fix: align the meta root when its padding rolls over to
 a new file

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 71add4f..b37ae90 100644
--- a/src/store.c
+++ b/src/store.c
@@ -777,7 +777,8 @@ urkel_store_write_meta(data_store_t *store,
 
   urkel_node_to_hash(root, &state->root_node);
 
-  if (slab->file_pos % META_SIZE) {
+  /* The padding itself may roll over to a new file. */
+  while (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
     urkel_slab_write(slab, padding, size);
-- 
2.43.0


From fbf466069988ff12232ce95e54de9cbfea0e2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 09/23] fix: let two readers open the same file at the same
 time

---
 src/store.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index b37ae90..e34f527 100644
--- a/src/store.c
+++ b/src/store.c
@@ -274,8 +274,10 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
+  urkel_file_t *item;
+
   urkel_rwlock_wrlock(fm->lock);
 
   if (file->index >= fm->len) {
@@ -289,12 +291,17 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  item = fm->items[file->index];
 
-  fm->items[file->index] = file;
-  fm->size += 1;
+  if (item == NULL) {
+    fm->items[file->index] = file;
+    fm->size += 1;
+    item = file;
+  }
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  return item;
 }
 
 static urkel_file_t *
@@ -477,7 +484,7 @@ urkel_store_evict(data_store_t *store) {
 static urkel_file_t *
 urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
   char path[URKEL_PATH_MAX + 1];
-  urkel_file_t *file;
+  urkel_file_t *file, *item;
 
   if (index == 0 || index > store->index + 1)
     return NULL;
@@ -501,9 +508,13 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
+  item = urkel_filemap_insert(&store->files, file);
 
-  return file;
+  /* Another reader opened the file in the meantime. */
+  if (item != file)
+    urkel_file_close(file);
+
+  return item;
 }
 
 static void
-- 
2.43.0


From 968ade9e6c8735a321b8a10d1bef622dac846e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 10/23] fix: do not wait for the transaction lock with the tree
 locked

---
 src/tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 2764565..3b72fd6 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1045,8 +1045,10 @@ urkel_tx_prove(tree_tx_t *tx,
 
   /* Node hashes may need to be computed. */
   if (write_lock) {
+    urkel_rwlock_rdunlock(tx->tree->lock);
     urkel_rwlock_rdunlock(tx->lock);
     urkel_rwlock_wrlock(tx->lock);
+    urkel_rwlock_rdlock(tx->tree->lock);
   }
 
   urkel_proof_init(&proof);
-- 
2.43.0


From 7ca195a4dab2cf4c714e2ff980073db6f33dfe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 11/23] fix: reset transactions to the reverted root

---
 src/tree.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 3b72fd6..f43af49 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -561,6 +561,21 @@ urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   }
 }
 
+static urkel_node_t *
+urkel_tree_root(tree_db_t *tree) {
+  urkel_node_t *root;
+
+  if (!tree->revert)
+    return urkel_store_get_root(tree->store);
+
+  /* Always in the root cache. */
+  root = urkel_store_get_history(tree->store, tree->hash);
+
+  CHECK(root != NULL);
+
+  return root;
+}
+
 static urkel_node_t *
 urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
   urkel_node_t *root = urkel_tree_write(tree, node);
@@ -892,14 +907,28 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  int write_lock;
+
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
 
+  write_lock = tx->tree->revert;
+
+  /* See urkel_tx_create. */
+  if (write_lock) {
+    urkel_rwlock_rdunlock(tx->tree->lock);
+    urkel_rwlock_wrlock(tx->tree->lock);
+  }
+
   urkel_node_destroy(tx->root, 1);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+  tx->root = urkel_tree_root(tx->tree);
+
+  if (write_lock)
+    urkel_rwlock_wrunlock(tx->tree->lock);
+  else
+    urkel_rwlock_rdunlock(tx->tree->lock);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 }
 
-- 
2.43.0


From cd889889250279a92f87f45c9300f36d99fdc019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 12/23] fix: reset the transaction when its commit fails

---
 doc/api.md | 2 +-
 src/tree.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/doc/api.md b/doc/api.md
index ee0fbec..51600c8 100644
--- a/doc/api.md
+++ b/doc/api.md
@@ -310,7 +310,7 @@ urkel_tx_commit(urkel_tx_t *tx);
 ```
 
 Commit transaction. Returns `1` on success. Returns `0` and sets `urkel_errno`
-on failure.
+on failure, in which case the transaction is reset (see `urkel_tx_clear`).
 
 ## Iterator
 
diff --git a/src/tree.c b/src/tree.c
index f43af49..b6fb91a 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1117,6 +1117,8 @@ urkel_tx_commit(tree_tx_t *tx) {
 
   if (root != NULL)
     tx->root = root;
+  else
+    tx->root = urkel_tree_root(tx->tree);
 
   urkel_rwlock_wrunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From be19f0db4db1b8fb99722dc57ec5fb3140c1cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 13/23] fix: drop the buffered data of a failed commit

---
 src/store.c | 13 +++++++++++++
 src/store.h |  3 +++
 src/tree.c  |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/src/store.c b/src/store.c
index e34f527..15b1721 100644
--- a/src/store.c
+++ b/src/store.c
@@ -771,6 +771,19 @@ urkel_store_flush(data_store_t *store) {
   return 1;
 }
 
+void
+urkel_store_rollback(data_store_t *store) {
+  /* Write lock is held. */
+  urkel_slab_t *slab = &store->slab;
+
+  slab->data_len = 0;
+  slab->data_off = 0;
+  slab->steps = 0;
+  slab->start = 0;
+  slab->file_pos = store->current->size;
+  slab->file_index = store->current->index;
+}
+
 static void
 urkel_store_write_meta(data_store_t *store,
                        urkel_meta_t *state,
diff --git a/src/store.h b/src/store.h
index bf3848a..823a232 100644
--- a/src/store.h
+++ b/src/store.h
@@ -61,6 +61,9 @@ urkel_store_needs_flush(const urkel_store_t *store);
 int
 urkel_store_flush(urkel_store_t *store);
 
+void
+urkel_store_rollback(urkel_store_t *store);
+
 int
 urkel_store_commit(urkel_store_t *store, const urkel_node_t *root);
 
diff --git a/src/tree.c b/src/tree.c
index b6fb91a..90b42e2 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -582,12 +582,14 @@ urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
 
   if (root == NULL) {
     urkel_node_destroy(node, 1);
+    urkel_store_rollback(tree->store);
     urkel_errno = URKEL_EBADWRITE;
     return NULL;
   }
 
   if (!urkel_store_commit(tree->store, root)) {
     urkel_node_destroy(root, 0);
+    urkel_store_rollback(tree->store);
     urkel_errno = URKEL_EBADWRITE;
     return NULL;
   }
-- 
2.43.0


From 78c330e8de056a8f512e5ca76d23ceb50c64d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/23] fix: cut off a partial write before appending again

---
 src/io.h       |  1 +
 src/io_posix.c | 13 ++++++++++++-
 src/store.c    |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/io.h b/src/io.h
index ae704ce..74e8647 100644
--- a/src/io.h
+++ b/src/io.h
@@ -133,6 +133,7 @@ typedef struct urkel_file_s {
   uint64_t size;
   void *base;
   int mapped;
+  int torn;
   char _storage[32];
 } urkel_file_t;
 
diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..c5ffc7d 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1103,6 +1103,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = st.st_size;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
 #ifdef HAVE_MMAP
   if ((flags & URKEL_O_MMAP) && sizeof(void *) >= 8) {
@@ -1165,8 +1166,18 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   }
 #endif
 
-  if (!urkel_fs_write(file->fd, src, len))
+  /* A partial write would shift everything appended after it. */
+  if (file->torn) {
+    if (!urkel_fs_ftruncate(file->fd, file->size))
+      return 0;
+
+    file->torn = 0;
+  }
+
+  if (!urkel_fs_write(file->fd, src, len)) {
+    file->torn = 1;
     return 0;
+  }
 
   file->size += len;
 
diff --git a/src/store.c b/src/store.c
index 15b1721..3423b82 100644
--- a/src/store.c
+++ b/src/store.c
@@ -111,7 +111,7 @@ typedef struct urkel_store_s {
  * Constants
  */
 
-static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, {0}};
+static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, 0, {0}};
 
 /*
  * Meta Root
-- 
2.43.0


From 21653bcec9044d82e107fa51bc41c0d45fc01444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 15/23] fix: do not report data as unwritten when it cannot be
 mapped

---
 src/io_posix.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index c5ffc7d..707ed5b 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1185,10 +1185,9 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data was written. Reads will use the descriptor. */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
-- 
2.43.0


From 59afbfbcaa2275ce4f4c03d860df481e56a6c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/23] fix: report an unreadable sibling instead of aborting
 on removal

---
 src/tree.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 90b42e2..e8063d7 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -315,7 +315,11 @@ urkel_tree_remove(tree_db_t *tree,
         if (side->type == URKEL_NODE_HASH) {
           side = urkel_store_resolve(tree->store, side);
 
-          CHECK(side != NULL);
+          if (side == NULL) {
+            urkel_node_destroy(z, 0);
+            urkel_errno = URKEL_ECORRUPTION;
+            return NULL;
+          }
 
           resolved = 1;
         }
@@ -334,6 +338,7 @@ urkel_tree_remove(tree_db_t *tree,
         }
 
         urkel_node_destroy(node, 0);
+        urkel_node_destroy(x, 0);
 
         if (resolved)
           urkel_node_destroy(y, 0);
@@ -357,8 +362,7 @@ urkel_tree_remove(tree_db_t *tree,
         return NULL;
       }
 
-      urkel_node_destroy(node, 0);
-
+      /* The caller destroys the leaf. */
       return urkel_node_create_null();
     }
 
@@ -373,10 +377,10 @@ urkel_tree_remove(tree_db_t *tree,
 
       ret = urkel_tree_remove(tree, rn, key, depth);
 
-      if (ret != NULL)
-        urkel_node_destroy(node, 0);
-      else
+      if (ret == NULL || ret->type == URKEL_NODE_NULL)
         urkel_node_destroy(rn, 1);
+      else
+        urkel_node_destroy(node, 0);
 
       return ret;
     }
@@ -1051,8 +1055,12 @@ urkel_tx_remove(tree_tx_t *tx, const unsigned char *key) {
 
   root = urkel_tree_remove(tx->tree, tx->root, key, 0);
 
-  if (root != NULL)
+  if (root != NULL) {
+    if (root->type == URKEL_NODE_NULL)
+      urkel_node_destroy(tx->root, 0);
+
     tx->root = root;
+  }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From 376bf70241e789ccd3e66d4c201857bd67dd0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 17/23] fix: do not remove data files which cannot be read
 during recovery

---
 src/store.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index 3423b82..79c5370 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1025,13 +1025,13 @@ urkel_store_find_meta(const data_store_t *store,
                       const char *path,
                       unsigned char *slab) {
   urkel_stat_t st;
-  int ret = 0;
+  int ret = -1;
   int fd;
 
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
   if (!urkel_fs_fstat(fd, &st))
     goto done;
@@ -1062,6 +1062,7 @@ urkel_store_find_meta(const data_store_t *store,
     }
   }
 
+  ret = 0;
 done:
   urkel_fs_close(fd);
   return ret;
@@ -1075,6 +1076,7 @@ urkel_store_recover_state(const data_store_t *store,
   unsigned char *slab = checked_malloc(SLAB_SIZE);
   char path[URKEL_PATH_MAX + 1];
   uint64_t off;
+  int found;
   int ret = 0;
 
   urkel_meta_init(state);
@@ -1083,7 +1085,13 @@ urkel_store_recover_state(const data_store_t *store,
   while (*index >= 1) {
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    /* Never remove a file which could not be read. */
+    if (found == -1)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From 2d57d5785d3c94ac05425632df90a51ca270b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 18/23] fix: take the lock before touching the database

---
 src/store.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index 79c5370..2fd0e69 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1123,14 +1123,13 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
-    return 0;
-
-  if (!urkel_store_find_index(store, &index))
+  if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_init_lock(store))
+  if (!urkel_store_init_meta(store) || !urkel_store_find_index(store, &index)) {
+    urkel_fs_close_lock(store->lock_fd);
     return 0;
+  }
 
   if (!urkel_store_recover_state(store,
                                  &store->state,
-- 
2.43.0


From 0cb0eeded793aefeee6e8c292bdcd549f6f8de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 19/23] fix: never replace the key of existing data, but a
 partially written one

---
 src/store.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/store.c b/src/store.c
index 2fd0e69..2002c0a 100644
--- a/src/store.c
+++ b/src/store.c
@@ -959,13 +959,18 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 }
 
 static int
-urkel_store_init_meta(data_store_t *store) {
+urkel_store_init_meta(data_store_t *store, uint32_t index) {
   char path[URKEL_PATH_MAX + 1];
 
   urkel_store_path(store, path, "meta");
 
-  if (urkel_fs_exists(path))
-    return urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE);
+  if (urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE))
+    return 1;
+
+  /* Without the key, existing data is lost. Only replace it when
+     there is no data (we may have died in the middle of this). */
+  if (index != 0)
+    return 0;
 
   urkel_random_bytes(store->key, URKEL_HASH_SIZE);
 
@@ -1126,7 +1131,8 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_init_meta(store) || !urkel_store_find_index(store, &index)) {
+  if (!urkel_store_find_index(store, &index)
+      || !urkel_store_init_meta(store, index)) {
     urkel_fs_close_lock(store->lock_fd);
     return 0;
   }
-- 
2.43.0


From 93d13f3f70e4d8bda10fc06b00f56b0cfc68868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 20/23] fix: never have two owners of the lock file

---
 src/io.c    | 15 ++++++++++++++-
 src/io.h    |  2 +-
 src/store.c | 22 ++++++++++++----------
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..61a7acd 100644
--- a/src/io.c
+++ b/src/io.c
@@ -56,6 +56,7 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
   int fd = urkel_fs_open(name, flags, mode);
+  urkel_stat_t st, cur;
 
   if (fd == -1)
     return -1;
@@ -65,11 +66,23 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     return -1;
   }
 
+  /* The previous owner may have removed the file in the meantime. */
+  if (!urkel_fs_fstat(fd, &st)
+      || !urkel_fs_stat(name, &cur)
+      || st.st_dev != cur.st_dev
+      || st.st_ino != cur.st_ino) {
+    urkel_fs_flock(fd, URKEL_LOCK_UN);
+    urkel_fs_close(fd);
+    return -1;
+  }
+
   return fd;
 }
 
 void
-urkel_fs_close_lock(int fd) {
+urkel_fs_close_lock(const char *name, int fd) {
+  /* Remove the file while no one else can have locked it. */
+  urkel_fs_unlink(name);
   urkel_fs_flock(fd, URKEL_LOCK_UN);
   urkel_fs_close(fd);
 }
diff --git a/src/io.h b/src/io.h
index 74e8647..90c6d3e 100644
--- a/src/io.h
+++ b/src/io.h
@@ -321,6 +321,6 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode);
 
 void
-urkel_fs_close_lock(int fd);
+urkel_fs_close_lock(const char *name, int fd);
 
 #endif /* URKEL_IO_H_ */
diff --git a/src/store.c b/src/store.c
index 2002c0a..3d71424 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1118,6 +1118,14 @@ fail:
   return ret;
 }
 
+static void
+urkel_store_close_lock(data_store_t *store) {
+  char path[URKEL_PATH_MAX + 1];
+
+  urkel_store_path(store, path, "lock");
+  urkel_fs_close_lock(path, store->lock_fd);
+}
+
 static void
 urkel_store_clear(data_store_t *store);
 
@@ -1133,7 +1141,7 @@ urkel_store_init(data_store_t *store, const char *prefix) {
 
   if (!urkel_store_find_index(store, &index)
       || !urkel_store_init_meta(store, index)) {
-    urkel_fs_close_lock(store->lock_fd);
+    urkel_store_close_lock(store);
     return 0;
   }
 
@@ -1141,7 +1149,7 @@ urkel_store_init(data_store_t *store, const char *prefix) {
                                  &store->state,
                                  &store->last_meta,
                                  &index)) {
-    urkel_fs_close_lock(store->lock_fd);
+    urkel_store_close_lock(store);
     return 0;
   }
 
@@ -1172,16 +1180,11 @@ urkel_store_init(data_store_t *store, const char *prefix) {
 
 static void
 urkel_store_clear(data_store_t *store) {
-  char path[URKEL_PATH_MAX + 1];
-
-  urkel_store_path(store, path, "lock");
-
   urkel_slab_clear(&store->slab);
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
-  urkel_fs_unlink(path);
+  urkel_store_close_lock(store);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1254,8 +1257,7 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
-    urkel_fs_unlink(path);
+    urkel_fs_close_lock(path, fd);
   }
 
   if (ret)
-- 
2.43.0


From 887914baccad617126c9dc07a82cd2b88eafd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 21/23] fix: make urkel_insert and urkel_remove atomic

Both read the root, changed it and committed it under separate locks, so
that of two concurrent calls one could silently undo the other.
---
 src/tree.c | 78 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 16 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index e8063d7..d2ab4dd 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -566,14 +566,17 @@ urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
 }
 
 static urkel_node_t *
-urkel_tree_root(tree_db_t *tree) {
-  urkel_node_t *root;
+urkel_tree_current(tree_db_t *tree) {
+  if (tree->revert)
+    return urkel_store_get_history(tree->store, tree->hash);
 
-  if (!tree->revert)
-    return urkel_store_get_root(tree->store);
+  return urkel_store_get_root(tree->store);
+}
 
+static urkel_node_t *
+urkel_tree_root(tree_db_t *tree) {
   /* Always in the root cache. */
-  root = urkel_store_get_history(tree->store, tree->hash);
+  urkel_node_t *root = urkel_tree_current(tree);
 
   CHECK(root != NULL);
 
@@ -737,41 +740,84 @@ urkel_insert(tree_db_t *tree,
              const unsigned char *key,
              const unsigned char *value,
              size_t size) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  urkel_node_t *root, *node;
   int ret = 0;
 
-  if (tx == NULL)
+  if (size > URKEL_VALUE_SIZE) {
+    urkel_errno = URKEL_EINVAL;
     return 0;
+  }
+
+  /* Hold the lock until the commit: a change made
+     by another thread in between would be lost. */
+  urkel_rwlock_wrlock(tree->lock);
 
-  if (!urkel_tx_insert(tx, key, value, size))
+  root = urkel_tree_current(tree);
+
+  if (root == NULL) {
+    urkel_errno = URKEL_ENOTFOUND;
     goto fail;
+  }
+
+  node = urkel_tree_insert(tree, root, key, value, size, 0);
+
+  if (node == NULL) {
+    if (urkel_errno != URKEL_ENOUPDATE) {
+      urkel_node_destroy(root, 1);
+      goto fail;
+    }
+
+    node = root;
+  }
+
+  root = urkel_tree_commit(tree, node);
 
-  if (!urkel_tx_commit(tx))
+  if (root == NULL)
     goto fail;
 
+  urkel_node_destroy(root, 1);
+
   ret = 1;
 fail:
-  urkel_tx_destroy(tx);
+  urkel_rwlock_wrunlock(tree->lock);
   return ret;
 }
 
 int
 urkel_remove(tree_db_t *tree, const unsigned char *key) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  urkel_node_t *root, *node;
   int ret = 0;
 
-  if (tx == NULL)
-    return 0;
+  /* See urkel_insert. */
+  urkel_rwlock_wrlock(tree->lock);
+
+  root = urkel_tree_current(tree);
+
+  if (root == NULL) {
+    urkel_errno = URKEL_ENOTFOUND;
+    goto fail;
+  }
+
+  node = urkel_tree_remove(tree, root, key, 0);
 
-  if (!urkel_tx_remove(tx, key))
+  if (node == NULL) {
+    urkel_node_destroy(root, 1);
     goto fail;
+  }
+
+  if (node->type == URKEL_NODE_NULL)
+    urkel_node_destroy(root, 0);
+
+  root = urkel_tree_commit(tree, node);
 
-  if (!urkel_tx_commit(tx))
+  if (root == NULL)
     goto fail;
 
+  urkel_node_destroy(root, 1);
+
   ret = 1;
 fail:
-  urkel_tx_destroy(tx);
+  urkel_rwlock_wrunlock(tree->lock);
   return ret;
 }
 
-- 
2.43.0


From 65b34ed376da91b3edb6aff5d5455389ff5ef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 22/23] verif: let debug builds accept line comments

The build was strict C90, so that even a comment line after // did not
compile. Release builds stay strict.
---
 CMakeLists.txt | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 3f7cf37..5612e77 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -81,6 +81,11 @@ set(CMAKE_C_STANDARD_REQUIRED ON)
 set(CMAKE_C_EXTENSIONS OFF)
 set(CMAKE_C_STANDARD 90)
 
+# Let debug builds accept line comments.
+if(URKEL_ENABLE_DEBUG AND NOT MSVC)
+  set(CMAKE_C_EXTENSIONS ON)
+endif()
+
 if(NOT URKEL_WASM)
   set(CMAKE_C_VISIBILITY_PRESET hidden)
   set(CMAKE_OSX_DEPLOYMENT_TARGET 10.7)
-- 
2.43.0


From cc375afcec83993f278a830d844bd6370f59d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:19 +0000
Subject: [PATCH 23/23] fix: sync the key file when commits are synced

With URKEL_FSYNC, a commit is on disk once reported, but the key which
its record is signed with was never synced: a power loss may leave an
empty key file, and the database cannot be opened any more.
---
 src/io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io.c b/src/io.c
index 61a7acd..588ee1d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -46,6 +46,11 @@ urkel_fs_write_file(const char *name,
   if (!urkel_fs_write(fd, dst, len))
     goto fail;
 
+#ifdef URKEL_FSYNC
+  if (!urkel_fs_fsync(fd))
+    goto fail;
+#endif
+
   ret = 1;
 fail:
   urkel_fs_close(fd);
-- 
2.43.0

