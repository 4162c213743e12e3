From 5f9067b6827d632719e07866258f7835e27a5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 01/28] fix: flush and sync the new state file before it
 replaces the old one

Buffered data that could not be written (disk full) was only noticed, and
ignored, when the channel was released; the truncated file was renamed over
the good one and the save reported success.
---
 preload-src/src/handling/state_io.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..1ba7c30 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -23,6 +23,7 @@
 
 #include "common.h"
 #include <glib/gstdio.h>
+#include <unistd.h>
 #include "state_io.h"
 #include "state.h"
 #include "map.h"
@@ -642,6 +643,7 @@ preload_state_write_file (const char *statefile)
 {
   int fd;
   GIOChannel *f;
+  GError *err = NULL;
   char *tmpfile;
   char *errmsg = NULL;
 
@@ -669,6 +671,13 @@ preload_state_write_file (const char *statefile)
 
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
+  /* everything must have reached the disk before the old state is replaced */
+  if (!errmsg && G_IO_STATUS_NORMAL != g_io_channel_flush (f, &err)) {
+    errmsg = g_strdup_printf ("cannot write %s: %s", tmpfile, err ? err->message : "incomplete write");
+    g_clear_error (&err);
+  }
+  if (!errmsg && 0 > fsync (fd))
+    errmsg = g_strdup_printf ("cannot sync %s: %s", tmpfile, strerror (errno));
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 13ff7e6cb2c1f99f77a49152532b365a1fa6130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 02/28] fix: read back state file paths whose URI is longer
 than the path limit

Paths of up to FILELEN-1 bytes are admitted but saved as file URIs, which are
up to three times as long; the reader cut them at FILELEN-1 characters and the
daemon could not start from the state file it had written.
---
 preload-src/src/handling/state_io.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 1ba7c30..09704be 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -52,6 +52,11 @@
 #define READ_DUPLICATE_INDEX_ERROR	"duplicate index"
 #define READ_DUPLICATE_OBJECT_ERROR	"duplicate object"
 
+/* longest file URI of an admitted path: file:// and three characters for each
+ * of at most FILELEN - 1 bytes */
+#define URILEN          2048
+#define URILENSTR       "2047"
+
 typedef struct _read_context_t
 {
   char *line;
@@ -61,7 +66,7 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
+  char filebuf[URILEN];
 } read_context_t;
 
 
@@ -78,7 +83,7 @@ read_map (read_context_t *rc)
   long long t_update_time;
 
   if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"URILENSTR"s",
 		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -124,7 +129,7 @@ read_badexe (read_context_t *rc)
   return;
 
   if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
+		  "%d %d %"URILENSTR"s",
 		  &size, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -155,7 +160,7 @@ read_exe (read_context_t *rc)
   long long t_update_time, t_time;
 
   if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lld %d %"URILENSTR"s",
 		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
-- 
2.43.0


From f9a33972802c95c124ae1c45d42870d1beb2193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 03/28] fix: reject a state file chain that links an executable
 with itself

preload_markov_new returns NULL for such a pair and the reader stored through
the result.
---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 09704be..58196d9 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -242,7 +242,7 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
-- 
2.43.0


From ab719fa7ad8032eec39f4a72ee24789606bc151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 04/28] fix: release the encoded path when writing a state
 record fails

---
 preload-src/src/handling/state_io.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 58196d9..06a053e 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -494,14 +494,14 @@ write_map (preload_map_t *map, gpointer G_GNUC_UNUSED data, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_MAP);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lu\t%lu\t%d\t%s",
 		   map->seq, (long long)map->update_time, (long)map->offset, (long)map->length, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_MAP);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -518,14 +518,14 @@ write_badexe (gpointer key, gpointer value, gpointer user_data)
   if (!uri)
     return;
 
-  write_tag (TAG_BADEXE);
   g_string_printf (wc->line,
 		   "%d\t%d\t%s",
 		   update_time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_BADEXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -538,14 +538,14 @@ write_exe (gpointer G_GNUC_UNUSED key, preload_exe_t *exe, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_EXE);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lld\t%d\t%s",
 		   exe->seq, (long long)exe->update_time, (long long)exe->time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_EXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
-- 
2.43.0


From 25163c2383148d9f94fa54ab72361f4e76ccb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 05/28] fix: skip duplicate sequence-tree nodes when loading
 the state file

A second node for the same parent and executable replaced the first in the
children table, which freed it while the import map still referred to it, so a
later child was attached to freed memory.  Ids are no longer cut to 32 bits.
---
 preload-src/src/algorithm/vomm.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..1eb019b 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -468,6 +468,7 @@ void vomm_export_state(VommNodeWriter writer, gpointer user_data) {
 
 /* Import state logic */
 static GHashTable *import_node_map = NULL;
+#define IMPORT_ID(id) GSIZE_TO_POINTER((gsize)(id))
 
 void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id) {
     if (!vomm_system.root) vomm_init(); // Ensure initialized
@@ -475,10 +476,10 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     if (import_node_map == NULL) {
         import_node_map = g_hash_table_new(g_direct_hash, g_direct_equal);
         /* Add root as ID 0 */
-        g_hash_table_insert(import_node_map, GINT_TO_POINTER(0), vomm_system.root);
+        g_hash_table_insert(import_node_map, IMPORT_ID(0), vomm_system.root);
     }
 
-    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)parent_id));
+    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, IMPORT_ID(parent_id));
     if (!parent_node) {
         g_warning("[VOMM] Orphan node id=%" G_GINT64_FORMAT ", parent=%" G_GINT64_FORMAT " not found. Skipping.", id, parent_id);
         return;
@@ -489,6 +490,13 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    /* A second node for the same id or the same edge would replace and free one that is still referred to */
+    if (g_hash_table_lookup(import_node_map, IMPORT_ID(id)) ||
+        g_hash_table_lookup(parent_node->children, exe->path)) {
+        g_warning("[VOMM] Duplicate node id=%" G_GINT64_FORMAT ". Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
@@ -500,7 +508,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     g_hash_table_insert(parent_node->children, g_strdup(exe->path), node);
 
     /* Remember this node for future children */
-    g_hash_table_insert(import_node_map, GINT_TO_POINTER((gint)id), node);
+    g_hash_table_insert(import_node_map, IMPORT_ID(id), node);
 }
 
 void vomm_import_done(void) {
-- 
2.43.0


From f5a826ed0de172cfd7ed5fa6fcc6cb93451acaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 06/28] fix: keep the sequence tree loaded from the state file

preload_state_run initialised the sequence model after the state file had been
read, which dropped (and leaked) the imported tree and its history.
---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 1eb019b..5bbd1ab 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -58,6 +58,9 @@ static void vomm_node_free(gpointer data) {
 }
 
 gboolean vomm_init(void) {
+    /* keep a tree that was already imported from the state file */
+    if (vomm_system.root) return TRUE;
+
     g_debug("[VOMM] Initializing Algorithm...");
     /* Root represents the empty context */
     vomm_system.root = vomm_node_new(NULL, NULL);
@@ -339,6 +342,9 @@ void vomm_predict(void) {
  */
 void vomm_hydrate_from_state(void) {
     if (!vomm_system.root) return;
+
+    /* a tree imported from the state file already holds these launches */
+    if (g_hash_table_size(vomm_system.root->children) > 0) return;
     
     g_debug("[VOMM] Hydrating from legacy Markov state...");
     int hydrated_count = 0;
-- 
2.43.0


From a755b1b739ada3eea5096bb321c80af80e36d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 07/28] fix: limit the depth of the sequence tree

The context was never reset, so every launch made the tree one level deeper and
the recursive export and release ran ever deeper with it.
---
 preload-src/src/algorithm/vomm.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 5bbd1ab..4a6a97e 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -91,6 +91,13 @@ void vomm_cleanup(void) {
  */
 #define MAX_VOMM_DEPTH 5
 
+/* Number of edges between a node and the root */
+static int vomm_node_depth(vomm_node_t *node) {
+    int depth = 0;
+    for (; node && node->parent; node = node->parent) depth++;
+    return depth;
+}
+
 void vomm_update(preload_exe_t *exe) {
     if (!exe) return;
     
@@ -116,7 +123,7 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    if (!vomm_system.current_context || vomm_node_depth(vomm_system.current_context) >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
@@ -496,6 +503,11 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (vomm_node_depth(parent_node) >= MAX_VOMM_DEPTH) {
+        g_debug("[VOMM] Node id=%" G_GINT64_FORMAT " is too deep. Skipping.", id);
+        return;
+    }
+
     /* A second node for the same id or the same edge would replace and free one that is still referred to */
     if (g_hash_table_lookup(import_node_map, IMPORT_ID(id)) ||
         g_hash_table_lookup(parent_node->children, exe->path)) {
-- 
2.43.0


From 0b64be1de59f320cd25444d0fe935efdcb9e9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 08/28] fix: make sequence-model bids raise the need of likely
 programs

lnprob is the log-probability of NOT being needed.  The context bid added
log(confidence), so the most likely successor was rated least needed, and the
fallback bid added a positive value, which voted against the program.
---
 preload-src/src/algorithm/vomm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 4a6a97e..c73cdfb 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -200,7 +200,8 @@ static void predict_ppm(vomm_node_t *node) {
         const double epsilon = 1e-9;
         child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        /* lnprob is the log-probability of NOT being needed */
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -225,8 +226,8 @@ static void predict_dg_fallback(vomm_node_t *node) {
         if (child->count > 0) {
              /* Weak bid for all neighbors */
              /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             child->exe->lnprob += log(1.0 - 0.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.0 - 0.1));
         }
     }
 }
-- 
2.43.0


From 53e5a8162fccdcbbe1c3c2070ef0e5c74b231efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 09/28] fix: drop every reference to an executable before it is
 freed

preload_state_unregister_exe, run by each save for programs whose file is gone,
freed the executable while the sequence tree, its history, the running list and
the list of changed programs of the last scan still referred to it.
---
 preload-src/src/algorithm/vomm.c | 34 ++++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  9 ++++++++-
 preload-src/src/handling/exe.c   |  7 +++++++
 preload-src/src/monitoring/spy.c |  7 +++++++
 preload-src/src/monitoring/spy.h |  4 ++++
 5 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index c73cdfb..e07dbf6 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -163,6 +163,40 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+/* Remove every node of an executable below (not including) the given one */
+static void vomm_node_forget_exe(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer key, value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, &key, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter);
+        else
+            vomm_node_forget_exe(child, exe);
+    }
+}
+
+void vomm_forget_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!exe || !vomm_system.root) return;
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+
+    /* Leave a context that is about to be removed */
+    for (node = vomm_system.current_context; node; node = node->parent) {
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+
+    vomm_node_forget_exe(vomm_system.root, exe);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..4cd0b99 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -27,11 +27,18 @@ void vomm_cleanup(void);
  * Updates the VOMM model with a new execution event.
  * Adds the sequence to the tree and updates frequencies.
  *
- * This function stores the exe pointer; caller must ensure exe remains valid until vomm_cleanup.
+ * This function stores the exe pointer; caller must ensure exe remains valid until vomm_cleanup
+ * or vomm_forget_exe.
  * If exe is NULL, the function returns immediately.
  */
 void vomm_update(preload_exe_t *exe);
 
+/*
+ * Drops every reference to an executable that is about to be freed:
+ * its nodes (with everything below them), history entries and context.
+ */
+void vomm_forget_exe(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..f0c5a19 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,8 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "spy.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -180,5 +182,10 @@ preload_state_unregister_exe (preload_exe_t *exe)
 
   g_hash_table_steal (state->exes, exe->path);
 
+  /* nothing may refer to it any more */
+  state->running_exes = g_slist_remove_all (state->running_exes, exe);
+  preload_spy_forget_exe (exe);
+  vomm_forget_exe (exe);
+
   preload_exe_free (exe);
 }
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..dc19367 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -191,6 +191,13 @@ preload_spy_scan (gpointer data)
   new_running_exes = NULL;  /* Break alias to prevent use-after-free on next scan */
 }
 
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+  new_running_exes = g_slist_remove_all (new_running_exes, exe);
+}
+
 /* update_model is run after scan, after some delay (half a cycle) */
 
 void
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..c830ae6 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -2,8 +2,12 @@
 #define SPY_H
 
 #include <glib.h>
+#include "exe.h"
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
 
+/* drops an executable that is about to be freed from the pending lists */
+void preload_spy_forget_exe (preload_exe_t *exe);
+
 #endif
-- 
2.43.0


From 08a00431346c1493f538d0b69c3452fd86605301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 10/28] fix: do not shorten a merged readahead request

A range lying inside the pending one replaced its end, so the rest of the
pending range was never read.
---
 preload-src/src/handling/readahead.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..eb264d6 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -310,8 +310,9 @@ preload_readahead (preload_map_t **files, int file_count)
 	  offset + length >= files[i]->offset &&
 	  0 == strcmp (path, files[i]->path))
         {
-	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  /* merge requests; the next one may lie inside this one */
+	  if (files[i]->offset + files[i]->length > offset + length)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From 668e168311bdcc1b6abd9c673bf52b4100fb51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 11/28] fix: do not wait forever when there are no children
 left

wait() fails with ECHILD when the children were already reaped (SIGCHLD ignored
by the parent process); the loop retried it for ever.
---
 preload-src/src/handling/readahead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index eb264d6..c38c6e0 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -118,6 +118,8 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno != EINTR)
+	procs = 0; /* no children left */
     }
 }
 
-- 
2.43.0


From ca7d5445268090168768add3d4c19ef317897402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 12/28] fix: sort by disk block when the block is known

The block number found with FIBMAP was always overwritten with the inode
number, so sortstrategy 3 behaved like 2.
---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c38c6e0..52f9f52 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From cff59bbd4f3f69604c22fe8e826869efec6dcd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 13/28] fix: read whole path names from process maps

The name was cut at the first space, so maps of files with spaces were learned
under a wrong name and the (deleted) mark was never seen; names that do not fit
were learned truncated.
---
 preload-src/src/monitoring/proc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..a35551b 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -111,9 +111,12 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       long start = 0, end = 0, offset = 0, length = 0;
       int count;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"[^\n]",
 		      &start, &end, &offset, file);
 
+      if (count == 4 && strlen (file) == sizeof (file) - 1)
+	continue; /* name didn't fit completely */
+
       if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
         continue;
 
-- 
2.43.0


From 359bf2bda3175da4c4912ecce5880bd47ec0170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 14/28] fix: release everything when a configuration file
 cannot be loaded

The key file, the error and the strings read so far were leaked by every failed
reload.
---
 preload-src/src/config/conf.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..6fb3a79 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -46,6 +46,14 @@ set_default_conf (preload_conf_t *conf)
 #undef confkey
 }
 
+static void
+free_conf_values (preload_conf_t *conf)
+{
+  g_strfreev (conf->system.mapprefix);
+  g_strfreev (conf->system.exeprefix);
+  g_free (conf->system.prediction_algorithm);
+}
+
 void
 preload_conf_load (const char *conffile, gboolean fail)
 {
@@ -65,6 +73,9 @@ preload_conf_load (const char *conffile, gboolean fail)
       f = g_key_file_new ();
       if (!g_key_file_load_from_file (f, conffile, G_KEY_FILE_NONE, &e)) {
 	g_log (G_LOG_DOMAIN, flags, "failed loading conf from %s: %s", conffile, e->message);
+	g_error_free (e);
+	g_key_file_free (f);
+	free_conf_values (&newconf);
 	return;
       }
 
@@ -87,6 +98,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
+	  g_key_file_free (f); \
+	  free_conf_values (&newconf); \
 	  return; \
 	} else { \
 	  g_error_free (e); \
@@ -100,9 +113,7 @@ preload_conf_load (const char *conffile, gboolean fail)
     }
 
   /* free the old configuration */
-  g_strfreev (conf->system.mapprefix);
-  g_strfreev (conf->system.exeprefix);
-  g_free (conf->system.prediction_algorithm);
+  free_conf_values (conf);
 
   *conf = newconf;
 }
-- 
2.43.0


From 91175d7e9bf8be5f1f8df1513370bc589b619edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 15/28] fix: document maxprocs under the name that is read

The shipped configuration set 'processes', which the daemon ignores.
---
 bin/preload.conf                       | 2 +-
 doc/README.md                          | 4 ++--
 flake.nix                              | 2 +-
 preload-src/src/config/preload.conf.in | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/preload.conf b/bin/preload.conf
index 8b9bd4d..b3d42e1 100644
--- a/bin/preload.conf
+++ b/bin/preload.conf
@@ -188,7 +188,7 @@ prediction_algorithm = "VOMM"
 # of nearby blocks.
 #
 # default: 30
-processes = 30
+maxprocs = 30
 
 # sortstrategy
 #
diff --git a/doc/README.md b/doc/README.md
index ef39b14..757608e 100644
--- a/doc/README.md
+++ b/doc/README.md
@@ -297,12 +297,12 @@ prediction_algorithm = "VOMM"
 #                           I/O OPTIMIZATION
 ###############################################################################
 
-# processes (integer)
+# maxprocs (integer)
 # Maximum parallel readahead processes.
 # 0 = no parallelism (all readahead in main process)
 # Parallel readahead allows kernel to batch nearby I/O requests.
 # Default: 30
-processes = 30
+maxprocs = 30
 
 # sortstrategy (0-3)
 # How to sort I/O requests for optimal disk access:
diff --git a/flake.nix b/flake.nix
index d1fc181..07a596b 100644
--- a/flake.nix
+++ b/flake.nix
@@ -158,7 +158,7 @@
             prediction_algorithm = ${cfg.settings.predictionAlgorithm}
 
             # Number of parallel readahead processes
-            processes = ${toString cfg.settings.processes}
+            maxprocs = ${toString cfg.settings.processes}
 
             # I/O sorting strategy (0=none, 1=path, 2=inode, 3=block)
             sortstrategy = ${toString cfg.settings.sortStrategy}
diff --git a/preload-src/src/config/preload.conf.in b/preload-src/src/config/preload.conf.in
index 312bd78..4f5ecdb 100644
--- a/preload-src/src/config/preload.conf.in
+++ b/preload-src/src/config/preload.conf.in
@@ -188,7 +188,7 @@ prediction_algorithm = default_prediction_algorithm
 # of nearby blocks.
 #
 # default: default_maxprocs
-processes = default_maxprocs
+maxprocs = default_maxprocs
 
 # sortstrategy
 #
-- 
2.43.0


From 1073515fd551c48501d46bd8234ff7644dae8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 16/28] fix: advance the model clock by the time waited on
 battery

The step waits two cycles but advanced the clock by one.
---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..3cbee99 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -200,7 +200,7 @@ preload_state_tick (gpointer data)
   if (preload_on_battery()) {
       g_debug("Running on battery. Skipping IO intensive operations and slowing down cycle.");
       /* Increase cycle time to save power (double the normal cycle) */
-      state->time += conf->model.cycle; 
+      state->time += conf->model.cycle * 2;
       g_timeout_add_seconds (conf->model.cycle * 2, preload_state_tick2, data);
       return FALSE;
   }
-- 
2.43.0


From ecce58b650958ca3e041b35ff35b1cef51cfcb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 17/28] fix: charge huge maps to the prefetching budget

The size of a map in kilobytes was cut to an int, so a map of 2 TiB or more had a
negative size, always fit and increased the budget.
---
 preload-src/src/algorithm/prophet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..412b390 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)((v) / 1024 + ((v) % 1024 != 0)))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
-- 
2.43.0


From a9386fc74541346883b3bfafad06e5302454bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 18/28] fix: bound the correlation instead of aborting on
 inconsistent times

Running times restored from the state file need not be consistent with each
other (the clock is saved separately and can be edited or rounded); the assertion
then ended the daemon in every prediction.
---
 preload-src/src/algorithm/markov.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..ce088d9 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -181,7 +181,12 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
+  /* times loaded from a state file may be inconsistent */
+  if (!(correlation >= -1.0))
+    correlation = correlation < -1.0 ? -1.0 : 0.0;
+  else if (correlation > 1.0)
+    correlation = 1.0;
+
   return correlation;
 }
 
-- 
2.43.0


From 988545dfe2bfdb62d2ece08b084996a4b1a935a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 19/28] fix: write fatal messages to the log at every verbosity

The fatal flag was part of the compared level, so with --verbose 0 the daemon
exited without saying why.
---
 preload-src/src/utils/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index ac581bd..50f7cd9 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -36,7 +36,7 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
   char *timestr;
 
   /* ignore unimportant messages */
-  if (log_level <= G_LOG_LEVEL_ERROR << preload_log_level)
+  if ((log_level & G_LOG_LEVEL_MASK) <= G_LOG_LEVEL_ERROR << preload_log_level)
     {
       curtime = time (NULL);
       timestr = ctime (&curtime);
-- 
2.43.0


From 96a42afa67cb09158088630d7fda2e98e87d8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 20/28] fix: do not call into GLib from the signal handler

g_timeout_add allocates and takes the main context's lock; a signal arriving
while the daemon was inside malloc or the main loop deadlocked it.  The handler
now only writes the signal number to a pipe that the main loop watches.
---
 preload-src/src/daemon/preload.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 7900f7e..7ff46cb 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -32,6 +32,8 @@
 
 #include <signal.h>
 #include <grp.h>
+#include <unistd.h>
+#include <glib-unix.h>
 
 /* variables */
 
@@ -39,6 +41,10 @@
 
 static preload_ctx_t *ctx = NULL;
 
+/* signals are passed to the main loop through a pipe */
+static int sig_pipe[2] = {-1, -1};
+static pid_t sig_pid;
+
 /* local variables */
 
 
@@ -62,6 +68,7 @@ daemonize (void)
       break;
     case 0:
       /* child */
+      sig_pid = getpid ();
       break;
     default:
       /* parent */
@@ -109,15 +116,37 @@ sig_handler_sync (gpointer data)
   return FALSE;
 }
 
+static gboolean
+sig_pipe_ready (gint fd, GIOCondition G_GNUC_UNUSED cond, gpointer G_GNUC_UNUSED data)
+{
+  unsigned char sig;
+
+  if (read (fd, &sig, 1) == 1)
+    sig_handler_sync (GINT_TO_POINTER ((int) sig));
+  return TRUE;
+}
+
+/* only async-signal-safe functions may be called here */
 static void
 sig_handler (int sig)
 {
-  g_timeout_add (0, sig_handler_sync, GINT_TO_POINTER (sig));
+  int saved_errno = errno;
+  unsigned char c = sig;
+
+  /* readahead children share the pipe */
+  if (getpid () == sig_pid)
+    (void) write (sig_pipe[1], &c, 1);
+  errno = saved_errno;
 }
 
 static void
 set_sig_handlers (void)
 {
+  if (0 > pipe2 (sig_pipe, O_NONBLOCK | O_CLOEXEC))
+    g_error ("pipe: %s", strerror (errno));
+  sig_pid = getpid ();
+  g_unix_fd_add (sig_pipe[0], G_IO_IN, sig_pipe_ready, NULL);
+
   /* trap key signals */
   signal (SIGINT,  sig_handler);
   signal (SIGQUIT, sig_handler);
-- 
2.43.0


From 08ae6d1bb7b7af38aa4ab9a35bbe06a5e9b13329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 21/28] fix: a pairwise bid is never positive or undefined

Counts and times read from a state file need not be consistent: with
weight[s][y] > weight[s][s] the computed probability exceeds one and
log(1 - p) is not a number, which then spreads to every map of the program
and makes the prediction order meaningless; with negative counts the bid
lowers the need.  Clamp the probability.
---
 preload-src/src/algorithm/prophet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 412b390..44b9336 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -91,6 +91,12 @@ markov_bid_for_exe (preload_markov_t *markov,
 
   p_runs = correlation * p_state_change * p_y_runs_next;
 
+  /* counts and times loaded from a state file may be inconsistent */
+  if (!(p_runs > 0))
+    return;
+  if (p_runs > 1 - 1e-9)
+    p_runs = 1 - 1e-9;
+
   y->lnprob += log (1 - p_runs);
 }
 
-- 
2.43.0


From cf87431e343d167483b1a2094d6a92e576820cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 22/28] fix: the global frequency bid stays in its range for
 any imported counts

With negative counts in the state file the total can be negative, the scaled
confidence drops below zero and the bid lowers the need of a program.
---
 preload-src/src/algorithm/vomm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index e07dbf6..839c3dc 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -306,6 +306,7 @@ static void predict_global_frequency(void) {
                 /* Scale to range [0.1, 0.5] to avoid overpowering context predictions */
                 global_conf = 0.1 + (global_conf * 0.4);
                 if (global_conf > 0.5) global_conf = 0.5;
+                if (global_conf < 0.1) global_conf = 0.1; /* imported counts may be negative */
                 
                 child->exe->lnprob += log(1.0 - global_conf);
                 /* g_debug("VOMM Global: Bidding on %s with global_conf %.3f (count=%d)", 
-- 
2.43.0


From 062d4808d39ab9952d31e01179bed9f8235a57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 23/28] fix: reject over-long paths in the state file

A path longer than anything the process scan admits was accepted (cut to the
field width without notice), and could be written back in a form that the
reader cannot read completely any more.
---
 preload-src/src/handling/state_io.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 06a053e..0385827 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -93,6 +93,12 @@ read_map (read_context_t *rc)
   if (!path)
     return;
 
+  if (strlen (path) >= FILELEN) { /* never written by us */
+    g_free (path);
+    rc->errmsg = READ_SYNTAX_ERROR;
+    return;
+  }
+
   map = preload_map_new (path, offset, length);
   g_free (path);
   if (g_hash_table_lookup (rc->maps, (gpointer)i)) {
@@ -170,6 +176,12 @@ read_exe (read_context_t *rc)
   if (!path)
     return;
 
+  if (strlen (path) >= FILELEN) { /* never written by us */
+    g_free (path);
+    rc->errmsg = READ_SYNTAX_ERROR;
+    return;
+  }
+
   exe = preload_exe_new (path, FALSE, NULL);
   exe->change_timestamp = -1;
   g_free (path);
-- 
2.43.0


From 1de7002f906f0b5ace1b8b1d909f534d2239ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 24/28] fix: reject negative transition counts in the state
 file

A count of -1 made the running mean of the next departure divide by zero.
---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 0385827..418a981 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -279,7 +279,7 @@ read_markov (read_context_t *rc)
       int x;
       if (1 > sscanf (rc->line,
 		      "%d%n",
-		      &x, &n)) {
+		      &x, &n) || x < 0) {
 	rc->errmsg = READ_SYNTAX_ERROR;
 	return;
       }
-- 
2.43.0


From 862106cdcebfdf4a7741544c1aa7739fa12bf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 25/28] fix: reject negative counts of sequence nodes in the
 state file

---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 418a981..6af10ed 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -298,7 +298,7 @@ read_vomm_node (read_context_t *rc)
 
   if (4 > sscanf (rc->line,
 		  "%" G_GINT64_FORMAT " %" G_GINT64_FORMAT " %d %" G_GINT64_FORMAT,
-		  &id, &exe_seq, &count, &parent_id)) {
+		  &id, &exe_seq, &count, &parent_id) || count < 0) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
   }
-- 
2.43.0


From fb8d62f455c1b937f7ace129fbb5273514018462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 26/28] fix: list and report a running program once when the
 state is loaded

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 3cbee99..cbc300d 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && !exe_is_running (exe)) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
     
-- 
2.43.0


From f8f748ab4280276da0d567cea19d57bc1e0df081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 27/28] fix: reject a second chain between two executables in
 the state file

---
 preload-src/src/handling/state_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 6af10ed..039dece 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -241,6 +241,7 @@ read_markov (read_context_t *rc)
   gint64 ia, ib;
   preload_exe_t *a, *b;
   preload_markov_t *markov;
+  guint k;
   int n;
 
   n = 0;
@@ -258,6 +259,13 @@ read_markov (read_context_t *rc)
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
+  for (k = 0; k < a->markovs->len; k++) {
+    markov = g_ptr_array_index (a->markovs, k);
+    if (markov->a == b || markov->b == b) {
+      rc->errmsg = READ_DUPLICATE_OBJECT_ERROR;
+      return;
+    }
+  }
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
-- 
2.43.0


From 3cddf15ca76299641d466a60f8e5d80950082c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 28/28] fix: keep the standard descriptors open when the log is
 set up with them closed

---
 preload-src/src/utils/log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index 50f7cd9..b7c442a 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -82,8 +82,11 @@ preload_log_init (const char *logfile)
 	  (dup2 (logfd, STDERR_FILENO) != STDERR_FILENO))
 	g_error ("dup2: %s", strerror (errno));
 
-      close (nullfd);
-      close (logfd);
+      /* either may be one of the three if they were closed at start */
+      if (nullfd > STDERR_FILENO)
+	close (nullfd);
+      if (logfd > STDERR_FILENO)
+	close (logfd);
 
       /* g_debug ("opening log file done"); */
     }
-- 
2.43.0

