From 1fe287901045733355f7287092eeab325df974f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 01/42] fix: do not shrink a merged readahead range when a
 contained section follows

---
 preload-src/src/handling/readahead.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..1883faf 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -310,8 +310,9 @@ preload_readahead (preload_map_t **files, int file_count)
 	  offset + length >= files[i]->offset &&
 	  0 == strcmp (path, files[i]->path))
         {
-	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  /* merge requests; the current range may already reach further */
+	  if (length < files[i]->offset + files[i]->length - offset)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From 6ef12ab1a31f124568844adea52e56b88b67dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 02/42] fix: keep the on-disk block found for a section instead
 of always using the inode number

---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 1883faf..2975544 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From f1037cd6c69a26c587a30e871809b940cd7ce1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 03/42] fix: stop waiting for readahead workers when there are
 none left to wait for

---
 preload-src/src/handling/readahead.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 2975544..94395f2 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -119,6 +119,9 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno != EINTR)
+	/* nothing left to wait for, e.g. they were reaped elsewhere */
+	procs = 0;
     }
 }
 
-- 
2.43.0


From 71cc9887a37195d377a745192efd34cd2813ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 04/42] fix: read file names with spaces from /proc/PID/maps in
 full, and skip those that do not fit

---
 preload-src/src/monitoring/proc.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..389a41d 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -110,11 +110,23 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       char file[FILELEN] = {0};
       long start = 0, end = 0, offset = 0, length = 0;
       int count;
+      char eol = '\n';
+
+      if (!strchr (buffer, '\n') && !feof (in))
+        {
+	  /* too long a line: skip all of it */
+	  int c;
+	  while ((c = getc (in)) != EOF && c != '\n')
+	    ;
+	  continue;
+	}
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
-		      &start, &end, &offset, file);
+      /* the file name extends to the end of the line, it may contain spaces */
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"[^\n]%c",
+		      &start, &end, &offset, file, &eol);
 
-      if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
+      /* eol is something else if the file name didn't fit completely */
+      if (count < 4 || eol != '\n' || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
         continue;
 
       length = end - start;
-- 
2.43.0


From e0831be7731afff00789498fb3e86b775bce8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 05/42] fix: read file URIs of the state file in full, they can
 be three times as long as the path

---
 preload-src/src/handling/state_io.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..9a08264 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -51,6 +51,10 @@
 #define READ_DUPLICATE_INDEX_ERROR	"duplicate index"
 #define READ_DUPLICATE_OBJECT_ERROR	"duplicate object"
 
+/* a path of up to FILELEN - 1 bytes, each possibly escaped as %XX, after file:// */
+#define URILEN    1600
+#define URILENSTR "1599"
+
 typedef struct _read_context_t
 {
   char *line;
@@ -60,7 +64,7 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
+  char filebuf[URILEN];
 } read_context_t;
 
 
@@ -77,7 +81,7 @@ read_map (read_context_t *rc)
   long long t_update_time;
 
   if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"URILENSTR"s",
 		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -123,7 +127,7 @@ read_badexe (read_context_t *rc)
   return;
 
   if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
+		  "%d %d %"URILENSTR"s",
 		  &size, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -154,7 +158,7 @@ read_exe (read_context_t *rc)
   long long t_update_time, t_time;
 
   if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lld %d %"URILENSTR"s",
 		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
-- 
2.43.0


From d1de56555991883a3e6afd08eab13c34f48dc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 06/42] fix: reject a state file that pairs a program with
 itself instead of crashing

---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 9a08264..69d1996 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -240,7 +240,7 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
-- 
2.43.0


From 82f8bda9332d541b7bfdd8cd0fa5d1d480975215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 07/42] fix: notice that the last part of the state could not
 be written before replacing the state file

---
 preload-src/src/handling/state_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 69d1996..79f2420 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -629,6 +629,8 @@ write_state (GIOChannel *f)
   if (!wc.err) g_hash_table_foreach   (state->exes, (GHFunc)write_exe_exemaps, &wc);
   if (!wc.err) preload_markov_foreach ((GFunc)write_markov, &wc);
   if (!wc.err) vomm_export_state (write_vomm_node_callback, &wc);
+  /* what is still buffered must reach the file before it counts as written */
+  if (!wc.err) g_io_channel_flush (f, &wc.err);
 
   g_string_free (wc.line, TRUE);
   if (wc.err) {
-- 
2.43.0


From 5735bca49d36cbc7379e5f4d1886941937a7c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 08/42] fix: do not leak the file URI when writing the state
 fails

---
 preload-src/src/handling/state_io.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 79f2420..c9f3dff 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -492,14 +492,14 @@ write_map (preload_map_t *map, gpointer G_GNUC_UNUSED data, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_MAP);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lu\t%lu\t%d\t%s",
 		   map->seq, (long long)map->update_time, (long)map->offset, (long)map->length, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_MAP);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -516,14 +516,14 @@ write_badexe (gpointer key, gpointer value, gpointer user_data)
   if (!uri)
     return;
 
-  write_tag (TAG_BADEXE);
   g_string_printf (wc->line,
 		   "%d\t%d\t%s",
 		   update_time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_BADEXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -536,14 +536,14 @@ write_exe (gpointer G_GNUC_UNUSED key, preload_exe_t *exe, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_EXE);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lld\t%d\t%s",
 		   exe->seq, (long long)exe->update_time, (long long)exe->time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_EXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
-- 
2.43.0


From 3fc93b18d012c37b49a65632bd1205264b22f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 09/42] fix: skip duplicate sequence nodes of the state file
 instead of freeing a node still in use

---
 preload-src/src/algorithm/vomm.c    | 10 ++++++++--
 preload-src/src/handling/state_io.c |  7 ++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..0052345 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -478,7 +478,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         g_hash_table_insert(import_node_map, GINT_TO_POINTER(0), vomm_system.root);
     }
 
-    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)parent_id));
+    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, (gpointer)parent_id);
     if (!parent_node) {
         g_warning("[VOMM] Orphan node id=%" G_GINT64_FORMAT ", parent=%" G_GINT64_FORMAT " not found. Skipping.", id, parent_id);
         return;
@@ -489,6 +489,12 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (g_hash_table_contains(import_node_map, (gpointer)id) ||
+        g_hash_table_contains(parent_node->children, exe->path)) {
+        g_warning("[VOMM] Duplicate node id=%" G_GINT64_FORMAT ". Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
@@ -500,7 +506,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     g_hash_table_insert(parent_node->children, g_strdup(exe->path), node);
 
     /* Remember this node for future children */
-    g_hash_table_insert(import_node_map, GINT_TO_POINTER((gint)id), node);
+    g_hash_table_insert(import_node_map, (gpointer)id, node);
 }
 
 void vomm_import_done(void) {
diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index c9f3dff..90c937a 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -405,12 +405,9 @@ read_state (GIOChannel *f)
   if (rc.err)
       g_error_free (rc.err);
 
-  if (!errmsg) {
+  if (!errmsg)
     preload_markov_foreach ((GFunc)set_markov_state_callback, NULL);
-    vomm_import_done();
-  }
-
-  return errmsg;
+  vomm_import_done();
 
   return errmsg;
 }
-- 
2.43.0


From 883f0a049b14addd3a8599e0a4cfc86bb324a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 10/42] fix: keep the launch sequences loaded from the state
 file when the daemon starts

---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 preload-src/src/handling/state.c | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 0052345..2201907 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -58,6 +58,9 @@ static void vomm_node_free(gpointer data) {
 }
 
 gboolean vomm_init(void) {
+    /* Keep what is there, e.g. the sequences loaded from the state file */
+    if (vomm_system.root) return TRUE;
+
     g_debug("[VOMM] Initializing Algorithm...");
     /* Root represents the empty context */
     vomm_system.root = vomm_node_new(NULL, NULL);
@@ -339,6 +342,9 @@ void vomm_predict(void) {
  */
 void vomm_hydrate_from_state(void) {
     if (!vomm_system.root) return;
+
+    /* Only a seed: the pair statistics would count the same launches again */
+    if (g_hash_table_size(vomm_system.root->children) > 0) return;
     
     g_debug("[VOMM] Hydrating from legacy Markov state...");
     int hydrated_count = 0;
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..e2e4f21 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -246,7 +246,7 @@ preload_state_run (const char *statefile)
       if (!vomm_init()) {
           g_warning("Failed to initialize VOMM algorithm");
       } else {
-          /* VOMM starts empty; hydrate it from the loaded legacy state */
+          /* If no sequences were loaded, hydrate it from the loaded legacy state */
           vomm_hydrate_from_state();
       }
   }
-- 
2.43.0


From 0b9cb450dfd48e390753cbe1ccb5fd86999949fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:51 +0000
Subject: [PATCH 11/42] fix: remove a program that leaves the model from the
 launch sequences before freeing it

---
 preload-src/src/algorithm/vomm.c | 34 ++++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  3 +++
 preload-src/src/handling/exe.c   |  2 ++
 3 files changed, 39 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 2201907..6f4f7f3 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -156,6 +156,40 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+/* Helper: Drop all nodes of an executable below a node, with what follows them */
+static void vomm_node_remove_exe(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer key, value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, &key, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter);
+        else
+            vomm_node_remove_exe(child, exe);
+    }
+}
+
+void vomm_remove_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!exe || !vomm_system.root) return;
+
+    /* Leave a context that is about to go */
+    for (node = vomm_system.current_context; node; node = node->parent) {
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+
+    vomm_node_remove_exe(vomm_system.root, exe);
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..15941d1 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -40,6 +40,9 @@ void vomm_update(preload_exe_t *exe);
  */
 void vomm_predict(void);
 
+/* Forget everything about an executable. To be called before it is freed. */
+void vomm_remove_exe(preload_exe_t *exe);
+
 /* Persistence */
 typedef void (*VommNodeWriter)(gint64 id, gint64 exe_seq, int count, gint64 parent_id, gpointer user_data);
 void vomm_export_state(VommNodeWriter writer, gpointer user_data);
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..f21a79d 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,7 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -179,6 +180,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
   g_return_if_fail (g_hash_table_lookup (state->exes, exe->path));
 
   g_hash_table_steal (state->exes, exe->path);
+  vomm_remove_exe (exe);
 
   preload_exe_free (exe);
 }
-- 
2.43.0


From 8655bf9975329123e96bc30e286e5b45c7c5178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 12/42] fix: forget pending state changes of a program that a
 save removes between scan and model update

---
 preload-src/src/handling/exe.c   | 2 ++
 preload-src/src/monitoring/spy.c | 6 ++++++
 preload-src/src/monitoring/spy.h | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index f21a79d..4b40e70 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,7 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "spy.h"
 #include "vomm.h"
 
 
@@ -181,6 +182,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
 
   g_hash_table_steal (state->exes, exe->path);
   vomm_remove_exe (exe);
+  preload_spy_forget_exe (exe);
 
   preload_exe_free (exe);
 }
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..ff0986e 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -156,6 +156,12 @@ exe_changed_callback (gpointer data, gpointer G_GNUC_UNUSED user_data)
   g_ptr_array_foreach (exe->markovs, (GFunc)preload_markov_state_changed, NULL);
 }
 
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+}
+
 void
 preload_spy_scan (gpointer data)
 {
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..32d39aa 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -2,8 +2,12 @@
 #define SPY_H
 
 #include <glib.h>
+#include "exe.h"
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
 
+/* Drop an exe from the pending changes. To be called before it is freed. */
+void preload_spy_forget_exe (preload_exe_t *exe);
+
 #endif
-- 
2.43.0


From ff19a42b56e17bb7ab425da53c8b801bdfa2cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 13/42] fix: list a program with several processes once in the
 running programs at start-up

---
 preload-src/src/handling/state.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index e2e4f21..f556a13 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,8 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  /* a program may have several processes, but it runs only once */
+  if (exe && !exe_is_running (exe)) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
     
-- 
2.43.0


From dcfa6c3198a74875ef4d8e673b2aab318010c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 14/42] fix: do not count the time before a restart as dwell
 time of the first state after it

---
 preload-src/src/handling/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index f556a13..91c18ad 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -46,6 +46,8 @@ update_markov_state_callback (gpointer data, gpointer G_GNUC_UNUSED user_data)
 {
   preload_markov_t *markov = (preload_markov_t *)data;
   markov->state = markov_compute_state (markov);
+  /* how long it has been in this state before is not known */
+  markov->change_timestamp = state->time;
 }
 
 static void
-- 
2.43.0


From 12685ad4a2b2dbdcd444288e02c0b1d42d34a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 15/42] fix: process state changes of known programs before
 pairing new programs with them

---
 preload-src/src/monitoring/spy.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index ff0986e..9d985b0 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -204,16 +204,17 @@ preload_spy_update_model (gpointer data)
 {
   int period;
 
-  /* register newly discovered exes */
-  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
-  g_hash_table_destroy (new_exes);
-  new_exes = NULL;  /* Prevent double-free on next scan */
-
-  /* and adjust states for those changing */
+  /* adjust states for those changing, before the pairs of new exes are
+   * initialized from when the known exes last changed */
   g_slist_foreach (state_changed_exes, (GFunc)exe_changed_callback, data);
   g_slist_free (state_changed_exes);
   state_changed_exes = NULL;  /* Prevent double-free on next scan */
 
+  /* and register newly discovered exes */
+  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
+  g_hash_table_destroy (new_exes);
+  new_exes = NULL;  /* Prevent double-free on next scan */
+
   /* do some accounting */
   period = (int)(state->time - state->last_accounting_timestamp);
   g_hash_table_foreach (state->exes, (GHFunc)running_exe_inc_time, GINT_TO_POINTER (period));
-- 
2.43.0


From 312c1632c1133c9b3033da24561d021fd89f0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 16/42] fix: let VOMM favour what more often follows, lnprob is
 the log-probability of not being needed

---
 preload-src/src/algorithm/vomm.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 6f4f7f3..cab3c52 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -224,10 +224,10 @@ static void predict_ppm(vomm_node_t *node) {
         double child_conf = (double)child->count / total_children_calls;
         
         /* Clamp child_conf to a safe range to avoid log(0) */
-        const double epsilon = 1e-9;
-        child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
+        child_conf = fmax(0.0, fmin(0.99, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        /* lnprob is the log-probability of NOT being needed */
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -251,9 +251,9 @@ static void predict_dg_fallback(vomm_node_t *node) {
         
         if (child->count > 0) {
              /* Weak bid for all neighbors */
-             /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             /* Add a small probability boost (less likely NOT to be needed) */
+             child->exe->lnprob -= log(1.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob -= %f)", child->exe->path, log(1.1));
         }
     }
 }
-- 
2.43.0


From 11dc57b808e278893fee592a322eb4cc995547b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 17/42] fix: limit the depth of the launch sequence tree as
 intended

---
 preload-src/src/algorithm/vomm.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index cab3c52..218942c 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -91,6 +91,13 @@ void vomm_cleanup(void) {
  */
 #define MAX_VOMM_DEPTH 5
 
+/* Helper: Number of launches in the context a node stands for */
+static int vomm_node_depth(vomm_node_t *node) {
+    int depth = 0;
+    for (; node->parent; node = node->parent) depth++;
+    return depth;
+}
+
 void vomm_update(preload_exe_t *exe) {
     if (!exe) return;
     
@@ -116,7 +123,8 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    if (!vomm_system.current_context ||
+        vomm_node_depth(vomm_system.current_context) >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
@@ -529,6 +537,11 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (vomm_node_depth(parent_node) >= MAX_VOMM_DEPTH) {
+        g_debug("[VOMM] Node id=%" G_GINT64_FORMAT " is too deep. Skipping.", id);
+        return;
+    }
+
     if (g_hash_table_contains(import_node_map, (gpointer)id) ||
         g_hash_table_contains(parent_node->children, exe->path)) {
         g_warning("[VOMM] Duplicate node id=%" G_GINT64_FORMAT ". Skipping.", id);
-- 
2.43.0


From 2f37a9152972b4e2d515e8a7bdaa072d44441fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 18/42] fix: advance the model time by the time a round on
 battery takes

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 91c18ad..46fde58 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -203,7 +203,7 @@ preload_state_tick (gpointer data)
   if (preload_on_battery()) {
       g_debug("Running on battery. Skipping IO intensive operations and slowing down cycle.");
       /* Increase cycle time to save power (double the normal cycle) */
-      state->time += conf->model.cycle; 
+      state->time += conf->model.cycle * 2;
       g_timeout_add_seconds (conf->model.cycle * 2, preload_state_tick2, data);
       return FALSE;
   }
-- 
2.43.0


From e55a9c93e04d633e00c70beaa046167a2a251528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 19/42] fix: do not abort when running times of the state file
 contradict each other

---
 preload-src/src/algorithm/markov.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..6f283a4 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -181,7 +181,9 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
+  /* running times of a state file may contradict each other */
+  if (!(fabs (correlation) <= 1.00001))
+    correlation = 0;
   return correlation;
 }
 
-- 
2.43.0


From 6b2dc3ed7329f65363f367e86cdb3c710e47641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 20/42] fix: save what the model update learned after a save
 between scan and update

---
 preload-src/src/handling/state.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 46fde58..b73ea53 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -186,6 +186,7 @@ preload_state_tick2 (gpointer data)
     g_debug ("state updating begin");
     preload_spy_update_model (data);
     state->model_dirty = FALSE;
+    state->dirty = TRUE; /* a save since the scan did not have this */
     g_debug ("state updating end");
   }
 
-- 
2.43.0


From 40c1a81998bc13e1151602bef26ea66fd86d858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 21/42] fix: honour the documented configuration key
 system.processes

---
 preload-src/src/config/conf.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..881421c 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -78,23 +78,29 @@ preload_conf_load (const char *conffile, gboolean fail)
 #define free_boolean(v)
 #define free_string_list(v) g_strfreev(v)
 #define free_string(v) g_free(v)
-#define confkey(grp, type, key, def, unit) \
-	dummyconf.grp.key = get_##type (G_STRINGIFY(grp), G_STRINGIFY(key), unit); \
+#define load_confkey(grp, type, name, key, unit) \
+	dummyconf.grp.key = get_##type (G_STRINGIFY(grp), name, unit); \
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
 	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
-		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
+		 G_STRINGIFY(grp), name, e->message); \
 	  g_error_free (e); \
 	  return; \
 	} else { \
 	  g_error_free (e); \
 	  e = NULL; \
 	}
+#define confkey(grp, type, key, def, unit) \
+	load_confkey (grp, type, G_STRINGIFY(key), key, unit)
 #include "confkeys.h"
 #undef confkey
 
+      /* maxprocs is documented, and in the shipped file, as processes */
+      load_confkey (system, integer, "processes", maxprocs, processes)
+#undef load_confkey
+
       g_key_file_free (f);
       g_debug ("loading conf done");
     }
-- 
2.43.0


From dfa74d4291cd47a0bff1b6c14db66b77095245de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 22/42] fix: do not leak what was loaded so far when loading
 the configuration fails

---
 preload-src/src/config/conf.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 881421c..70cc6ec 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -49,7 +49,7 @@ set_default_conf (preload_conf_t *conf)
 void
 preload_conf_load (const char *conffile, gboolean fail)
 {
-  GKeyFile *f;
+  GKeyFile *f = NULL;
   GError *e = NULL;
   preload_conf_t newconf;
   memset(&newconf, 0, sizeof(newconf));
@@ -65,7 +65,7 @@ preload_conf_load (const char *conffile, gboolean fail)
       f = g_key_file_new ();
       if (!g_key_file_load_from_file (f, conffile, G_KEY_FILE_NONE, &e)) {
 	g_log (G_LOG_DOMAIN, flags, "failed loading conf from %s: %s", conffile, e->message);
-	return;
+	goto fail;
       }
 
 #define get_integer(grp, key, unit) (unit * g_key_file_get_integer (f, grp, key, &e))
@@ -86,8 +86,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), name, e->message); \
-	  g_error_free (e); \
-	  return; \
+	  goto fail; \
 	} else { \
 	  g_error_free (e); \
 	  e = NULL; \
@@ -111,6 +110,15 @@ preload_conf_load (const char *conffile, gboolean fail)
   g_free (conf->system.prediction_algorithm);
 
   *conf = newconf;
+  return;
+
+fail:
+  /* keep the old configuration */
+  g_strfreev (newconf.system.mapprefix);
+  g_strfreev (newconf.system.exeprefix);
+  g_free (newconf.system.prediction_algorithm);
+  g_key_file_free (f);
+  g_error_free (e);
 }
 
 void
-- 
2.43.0


From 5d7d2a9a37199380f78006991edb4924a8a87f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 23/42] fix: use the defaults when a whole group is left out of
 the configuration file

---
 preload-src/src/config/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 70cc6ec..dda7c25 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -83,7 +83,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
+	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND && \
+		   e->code != G_KEY_FILE_ERROR_GROUP_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), name, e->message); \
 	  goto fail; \
-- 
2.43.0


From 3fa9606b46ee64c04c0e7c129221b6c1c44c2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 24/42] fix: do nothing but async-signal-safe work in the
 signal handler

---
 preload-src/src/daemon/preload.c | 36 +++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 7900f7e..d6487e1 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -32,6 +32,7 @@
 
 #include <signal.h>
 #include <grp.h>
+#include <glib-unix.h>
 
 /* variables */
 
@@ -109,15 +110,48 @@ sig_handler_sync (gpointer data)
   return FALSE;
 }
 
+static const int sig_handled[] = { SIGHUP, SIGUSR1, SIGUSR2, SIGINT, SIGQUIT, SIGTERM };
+static volatile sig_atomic_t sig_pending[NSIG];
+static int sig_pipe[2]; /* wakes up the main loop */
+
+static gboolean
+sig_dispatch (gint fd, GIOCondition G_GNUC_UNUSED condition, gpointer G_GNUC_UNUSED data)
+{
+  char buf[64];
+  guint i;
+
+  /* empty the pipe first, a signal arriving from now on fills it again */
+  while (read (fd, buf, sizeof (buf)) > 0)
+    ;
+
+  for (i = 0; i < G_N_ELEMENTS (sig_handled); i++)
+    if (sig_pending[sig_handled[i]]) {
+      sig_pending[sig_handled[i]] = 0;
+      sig_handler_sync (GINT_TO_POINTER (sig_handled[i]));
+    }
+
+  return TRUE;
+}
+
+/* may interrupt anything, so do nothing here that is not async-signal-safe */
 static void
 sig_handler (int sig)
 {
-  g_timeout_add (0, sig_handler_sync, GINT_TO_POINTER (sig));
+  int saved_errno = errno;
+
+  sig_pending[sig] = 1;
+  (void) write (sig_pipe[1], "", 1);
+
+  errno = saved_errno;
 }
 
 static void
 set_sig_handlers (void)
 {
+  if (0 > pipe2 (sig_pipe, O_CLOEXEC | O_NONBLOCK))
+    g_error ("pipe failed, exiting: %s", strerror (errno));
+  g_unix_fd_add (sig_pipe[0], G_IO_IN, sig_dispatch, NULL);
+
   /* trap key signals */
   signal (SIGINT,  sig_handler);
   signal (SIGQUIT, sig_handler);
-- 
2.43.0


From a51b24ed4737c5824729e4a72470c0074dd24f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 25/42] fix: make VOMM work when the algorithm is switched to
 it by a configuration reload

---
 preload-src/src/daemon/preload.c | 1 +
 preload-src/src/handling/state.c | 9 ++++++++-
 preload-src/src/handling/state.h | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index d6487e1..bea63e2 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -93,6 +93,7 @@ sig_handler_sync (gpointer data)
   switch (GPOINTER_TO_INT (data)) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
+      preload_state_prepare_algorithm ();
       preload_log_reopen (ctx->logfile);
       break;
     case SIGUSR1:
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index b73ea53..57763b9 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -244,7 +244,7 @@ preload_state_autosave (gpointer G_GNUC_UNUSED user_data)
 
 
 void
-preload_state_run (const char *statefile)
+preload_state_prepare_algorithm (void)
 {
   if (preload_is_vomm_algorithm()) {
       if (!vomm_init()) {
@@ -254,6 +254,13 @@ preload_state_run (const char *statefile)
           vomm_hydrate_from_state();
       }
   }
+}
+
+
+void
+preload_state_run (const char *statefile)
+{
+  preload_state_prepare_algorithm ();
   g_timeout_add (0, preload_state_tick, NULL);
   if (statefile) {
     autosave_statefile = g_strdup (statefile);
diff --git a/preload-src/src/handling/state.h b/preload-src/src/handling/state.h
index 190c676..e650285 100644
--- a/preload-src/src/handling/state.h
+++ b/preload-src/src/handling/state.h
@@ -68,6 +68,7 @@ extern preload_state_t state[1];
 void preload_state_load (const char *statefile);
 void preload_state_save (const char *statefile);
 void preload_state_dump_log (void);
+void preload_state_prepare_algorithm (void); /* for the algorithm now configured */
 void preload_state_run (const char *statefile);
 void preload_state_free (void);
 
-- 
2.43.0


From 7f344dda755163a6dbcef934f4d01fbdb351168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 26/42] fix: reject a state file with two records for the same
 pair of programs

---
 preload-src/src/handling/state_io.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 90c937a..358b04f 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -227,6 +227,7 @@ read_markov (read_context_t *rc)
   gint64 ia, ib;
   preload_exe_t *a, *b;
   preload_markov_t *markov;
+  guint i;
   int n;
 
   n = 0;
@@ -245,6 +246,14 @@ read_markov (read_context_t *rc)
     return;
   }
 
+  for (i = 0; i < a->markovs->len; i++) {
+    markov = g_ptr_array_index (a->markovs, i);
+    if (markov->a == b || markov->b == b) {
+      rc->errmsg = READ_DUPLICATE_OBJECT_ERROR;
+      return;
+    }
+  }
+
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
 
-- 
2.43.0


From 8c673d2fe352dda583bacb3e6359f60074eb77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 27/42] fix: do not take sections of 2 TB and more for small
 ones when choosing what to prefetch

---
 preload-src/src/algorithm/prophet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..b7d59e7 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)((v) / 1024 + ((v) % 1024 != 0))) /* may exceed an int */
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
-- 
2.43.0


From 3883fd36ac40a673ce78a4e962d9b722aec977f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 28/42] fix: look up block or inode numbers again when the sort
 strategy is changed

---
 preload-src/src/config/conf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index dda7c25..e304c35 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -105,6 +105,11 @@ preload_conf_load (const char *conffile, gboolean fail)
       g_debug ("loading conf done");
     }
 
+  /* positions looked up for another sort order are of no use */
+  if (newconf.system.sortstrategy != conf->system.sortstrategy && state->maps_arr)
+    for (guint i = 0; i < state->maps_arr->len; i++)
+      ((preload_map_t *)g_ptr_array_index (state->maps_arr, i))->block = -1;
+
   /* free the old configuration */
   g_strfreev (conf->system.mapprefix);
   g_strfreev (conf->system.exeprefix);
-- 
2.43.0


From 89613159db22fb008181d31df93cd07c836ea352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 29/42] fix: reject a state file with a negative model time

With a model time of -1 every loaded program counted as running, because
that is also the mark of a program that was never seen running; the first
scan then tripped an assertion for every pair.
---
 preload-src/src/handling/state_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 358b04f..b71594d 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -368,7 +368,8 @@ read_state (GIOChannel *f)
 
       if (lineno != 1 || 2 > sscanf (rc.line,
 				     "%d.%*[^\t]\t%d",
-				     &major_ver_read, &time_val)) {
+				     &major_ver_read, &time_val) ||
+	  time_val < 0) { /* a program would count as running before it was ever seen */
 	rc.errmsg = READ_SYNTAX_ERROR;
 	break;
       }
-- 
2.43.0


From a446d6b320ee52a149d978b368f0a2481ef63581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 30/42] fix: take a reported MemAvailable of 0 as it is when
 choosing what to prefetch

---
 preload-src/src/algorithm/prophet.c | 2 +-
 preload-src/src/monitoring/proc.c   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index b7d59e7..86a87fd 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -224,7 +224,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
    *   Can contain dirty pages that need writeback first.
    *   We use the configured percentage.
    */
-  if (memstat.available > 0) {
+  if (memstat.available >= 0) {
     /* Linux 3.14+ provides accurate available memory estimate */
     memavail = memstat.available;
     
diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 389a41d..85ab50b 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -265,6 +265,7 @@ proc_get_memstat (preload_memory_t *mem)
   open_file ("/proc/meminfo");
   read_tag ("MemTotal:", mem->total);
   read_tag ("MemFree:", mem->free);
+  mem->available = -1;  /* until reported */
   read_tag ("MemAvailable:", mem->available);
   read_tag ("Buffers:", mem->buffers);
   read_tag ("Cached:", mem->cached);
@@ -290,7 +291,7 @@ proc_get_memstat (preload_memory_t *mem)
   mem->pageout *= pagesize / 1024;
 
   /* Fallback for MemAvailable (pre Linux 3.14) */
-  if (!mem->available && mem->free) {
+  if (mem->available < 0) {
     /* Approximate: free + (cached - min cache) + (buffers portion) 
      * This is a rough estimate; kernel's calculation is more complex */
     mem->available = mem->free + (mem->cached * 80 / 100) + (mem->buffers * 75 / 100);
-- 
2.43.0


From 37fc4ec50912f317935ca4008331c81aebecb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:51 +0000
Subject: [PATCH 31/42] fix: do not overflow when estimating available memory
 with more than 26 GB of page cache

---
 preload-src/src/monitoring/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 85ab50b..d9cca3d 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -294,7 +294,7 @@ proc_get_memstat (preload_memory_t *mem)
   if (mem->available < 0) {
     /* Approximate: free + (cached - min cache) + (buffers portion) 
      * This is a rough estimate; kernel's calculation is more complex */
-    mem->available = mem->free + (mem->cached * 80 / 100) + (mem->buffers * 75 / 100);
+    mem->available = mem->free + (int)((gint64)mem->cached * 80 / 100) + (int)((gint64)mem->buffers * 75 / 100);
   }
 
   if (!mem->total || !mem->pagein)
-- 
2.43.0


From 5f218d5095b984902c4c8934a6b0392ef518031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 32/42] fix: do not hang when a file to prefetch has been
 replaced by a FIFO

---
 preload-src/src/handling/readahead.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 94395f2..c6db758 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -45,7 +45,8 @@ set_block(preload_map_t *file, gboolean use_inode)
   /* in case we can get block, set to 0 to not retry */
   file->block = 0;
 
-  fd = open(file->path, O_RDONLY);
+  /* the path may be anything by now, do not wait for the other end of a FIFO */
+  fd = open(file->path, O_RDONLY | O_NOCTTY | O_NONBLOCK);
   if (fd < 0)
     return;
   
@@ -223,6 +224,7 @@ process_file(const char *path, size_t offset, size_t length)
   fd = open(path,
 	      O_RDONLY
 	    | O_NOCTTY
+	    | O_NONBLOCK /* not to hang on a FIFO */
 #ifdef O_NOATIME
 	    | O_NOATIME
 #endif
-- 
2.43.0


From a161571d1cc8d710e644c08b63b920abc34079ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 33/42] fix: do not take a file for deleted because of
 "(deleted)" inside its path

---
 preload-src/src/monitoring/proc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index d9cca3d..65eb27e 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -57,8 +57,8 @@ sanitize_file (char *file)
     return TRUE;
   }
 
-  /* and (non-prelinked) deleted files */
-  if (strstr (file, "(deleted)"))
+  /* and (non-prelinked) deleted files, which the kernel marks at the end */
+  if (g_str_has_suffix (file, " (deleted)"))
     return FALSE;
 
   return TRUE;
-- 
2.43.0


From 915c5eb21ad9c2e37ff442f5a60137f52a64b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 34/42] fix: keep inode numbers of more than 31 bits whole when
 ordering by inode

They were squeezed into an int, so files on large file systems were
read in an order that has nothing to do with their inode numbers.
---
 preload-src/src/handling/map.h       | 2 +-
 preload-src/src/handling/readahead.c | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/handling/map.h b/preload-src/src/handling/map.h
index bd973a4..7c5b9b8 100644
--- a/preload-src/src/handling/map.h
+++ b/preload-src/src/handling/map.h
@@ -28,7 +28,7 @@ typedef struct _preload_map_t
   int refcount; /* number of exes linking to this. */
   double lnprob; /* log-probability of NOT being needed in next period. */
   gint64 seq; /* unique map sequence number. */
-  int block; /* on-disk location of the start of the map. */
+  gint64 block; /* on-disk location of the start of the map. */
   int priv; /* for private local use of functions. */
 } preload_map_t;
 
diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c6db758..576f6e2 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,11 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
     }
 #endif
 
-  /* fall back to inode number */
-  if (!block)
-    block = buf.st_ino;
-
-  file->block = block;
+  /* fall back to inode number, which may not fit in an int */
+  file->block = block ? block : (gint64) buf.st_ino;
 
   close (fd);
 }
-- 
2.43.0


From a9b93604365fff0d42d68dda4b5b3c55a66264ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 35/42] fix: show the reason of a fatal error at verbosity 0

---
 preload-src/src/utils/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index ac581bd..50f7cd9 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -36,7 +36,7 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
   char *timestr;
 
   /* ignore unimportant messages */
-  if (log_level <= G_LOG_LEVEL_ERROR << preload_log_level)
+  if ((log_level & G_LOG_LEVEL_MASK) <= G_LOG_LEVEL_ERROR << preload_log_level)
     {
       curtime = time (NULL);
       timestr = ctime (&curtime);
-- 
2.43.0


From 1ae1f81e0e38e4e45fa4371c8eaa810cca36c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 36/42] fix: keep relative file names valid after detaching

---
 preload-src/src/daemon/preload.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index bea63e2..31c8c82 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -52,9 +52,29 @@ static preload_ctx_t *ctx = NULL;
 
 /* Functions */
 
+/* the names given are relative to where we are started, not to "/" */
+static void
+make_absolute (char **filename)
+{
+  char *curdir, *absname;
+
+  if (!*filename || !**filename || g_path_is_absolute (*filename))
+    return;
+
+  curdir = g_get_current_dir ();
+  absname = g_build_filename (curdir, *filename, NULL);
+  g_free (curdir);
+  g_free (*filename);
+  *filename = absname;
+}
+
 static void
 daemonize (void)
 {
+  make_absolute (&ctx->conffile);
+  make_absolute (&ctx->statefile);
+  make_absolute (&ctx->logfile);
+
   switch (fork ())
     {
     case -1:
-- 
2.43.0


From be53eb28ca992b7e84c41df71e5589cdfed04ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 37/42] fix: install.sh prepares and removes the state
 directory the daemon uses

The daemon keeps its state in /var/lib/preload and its log in /var/log, but the
installer created /usr/local/var/lib/preload and /usr/local/var/log: without
systemd the state could never be saved, and removing the state data on
uninstall left it in place.
---
 scripts/install.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/install.sh b/scripts/install.sh
index e684490..aa64946 100644
--- a/scripts/install.sh
+++ b/scripts/install.sh
@@ -15,7 +15,7 @@ NC='\033[0m' # No Color
 # Configuration
 INSTALL_BIN="/usr/local/sbin"
 INSTALL_CONF="/etc"
-VAR_LIB="/usr/local/var/lib/preload"
+VAR_LIB="/var/lib/preload"
 SYSTEMD_DIR="/etc/systemd/system"
 OPENRC_DIR="/etc/init.d"
 
@@ -124,9 +124,9 @@ create_directories() {
     chmod 755 "$VAR_LIB"
 
     # Create log directory if it doesn't exist
-    if [ ! -d "/usr/local/var/log" ]; then
-        mkdir -p "/usr/local/var/log"
-        chmod 755 "/usr/local/var/log"
+    if [ ! -d "/var/log" ]; then
+        mkdir -p "/var/log"
+        chmod 755 "/var/log"
     fi
 
     print_success "Directories created"
-- 
2.43.0


From 647b822f2bc2033d3f40d53549e9abcb130ea1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 38/42] fix: build.sh could not find install.sh

$script_dir is local to another function, and install.sh is not executable.
---
 scripts/build.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/build.sh b/scripts/build.sh
index c2605a8..e089586 100644
--- a/scripts/build.sh
+++ b/scripts/build.sh
@@ -109,7 +109,7 @@ install_preload() {
         echo ""
         print_info "Installing preload (requires root permissions)..."
         # Use install.sh script since Makefile doesn't have install target
-        sudo "$script_dir/scripts/install.sh" install
+        sudo bash "$SCRIPT_DIR/install.sh" install
         print_success "Preload installed"
 
         echo ""
@@ -170,6 +170,9 @@ while [[ $# -gt 0 ]]; do
     esac
 done
 
+# Where this script is, before the working directory changes
+SCRIPT_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
+
 # Main
 print_header
 check_dependencies
-- 
2.43.0


From 09cee33c1ecb6ac7c60427b54e63932ebade85f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 39/42] fix: build.sh failed after installing where there is no
 systemd

install.sh already offers to enable and start the service, for the init system
it finds; asking again and calling systemctl failed elsewhere, and named a make
target that does not exist.
---
 scripts/build.sh | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/scripts/build.sh b/scripts/build.sh
index e089586..15886fc 100644
--- a/scripts/build.sh
+++ b/scripts/build.sh
@@ -108,26 +108,15 @@ install_preload() {
     [yY] | [yY][eE][sS])
         echo ""
         print_info "Installing preload (requires root permissions)..."
-        # Use install.sh script since Makefile doesn't have install target
+        # Use install.sh script since Makefile doesn't have install target;
+        # it also offers to enable and start the service
         sudo bash "$SCRIPT_DIR/install.sh" install
         print_success "Preload installed"
-
-        echo ""
-        read -p "Enable and start preload service? (Y/n): " enable_response
-        case "$enable_response" in
-        [nN] | [nN][oO])
-            print_info "Service not enabled"
-            ;;
-        *)
-            sudo systemctl enable --now preload
-            print_success "Service enabled and started"
-            ;;
-        esac
         ;;
     *)
         echo ""
         print_info "Installation skipped"
-        echo "To install manually, run: sudo make install"
+        echo "To install manually, run: sudo bash scripts/install.sh"
         ;;
     esac
 }
-- 
2.43.0


From 48893d3280c5ff5e406ae70ff7bd8b5bcf280ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 40/42] fix: do not crash on a status request with an empty
 prefix list

A prefix list that is in the configuration but empty is a vector without
elements; the status report printed its terminating NULL and went on behind
it.
---
 preload-src/src/config/conf.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index e304c35..1de64e9 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -148,11 +148,9 @@ preload_conf_dump_log (void)
 #define print_string(v, unit) \
 	fprintf (stderr, "%s", v);
 #define print_string_list(v, unit) G_STMT_START {\
-	  char **p = v; \
-	  if (p) \
-	    fprintf (stderr, "%s", *p++); \
-	  while (p && *p) \
-	    fprintf (stderr, ";%s", *p++); \
+	  char **p; \
+	  for (p = v; p && *p; p++) /* may be there and empty */ \
+	    fprintf (stderr, "%s%s", p == v ? "" : ";", *p); \
 	} G_STMT_END 
 #define confkey(grp, type, key, def, unit) \
 	if (strcmp (G_STRINGIFY(grp), curgrp)) \
-- 
2.43.0


From 04c00298aeac72cde36c3000f0b1356a8be2915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 41/42] fix: do not open what is not a regular file for
 prefetching

By the time a file is prefetched its path may lead to a device or a FIFO.
Opening these is not without effect: a program waiting for somebody to read
its FIFO is let go and then killed when it writes.
---
 preload-src/src/handling/readahead.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 576f6e2..70f7880 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -35,6 +35,16 @@
 #define IOPRIO_CLASS_IDLE 3
 #endif
 
+/* Only regular files can be prefetched, and merely opening anything else, like
+ * a device or a FIFO, may have effects on whoever uses it. */
+static gboolean
+is_regular_file (const char *path)
+{
+  struct stat buf;
+
+  return 0 == stat (path, &buf) && S_ISREG (buf.st_mode);
+}
+
 static void
 set_block(preload_map_t *file, gboolean use_inode)
 {
@@ -45,6 +55,9 @@ set_block(preload_map_t *file, gboolean use_inode)
   /* in case we can get block, set to 0 to not retry */
   file->block = 0;
 
+  if (!is_regular_file (file->path))
+    return;
+
   /* the path may be anything by now, do not wait for the other end of a FIFO */
   fd = open(file->path, O_RDONLY | O_NOCTTY | O_NONBLOCK);
   if (fd < 0)
@@ -218,7 +231,8 @@ process_file(const char *path, size_t offset, size_t length)
 	}
     }
 
-  fd = open(path,
+  if (is_regular_file (path))
+    fd = open(path,
 	      O_RDONLY
 	    | O_NOCTTY
 	    | O_NONBLOCK /* not to hang on a FIFO */
-- 
2.43.0


From 56f759f2e7c3fab236e3ede7c7793ff43c859b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 42/42] fix: the counts of all launch sequences together may
 exceed an int

---
 preload-src/src/algorithm/vomm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 218942c..4d59608 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -202,7 +202,7 @@ void vomm_remove_exe(preload_exe_t *exe) {
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
     gpointer key, value;
-    int total_children_calls = 0;
+    gint64 total_children_calls = 0;
     vomm_node_t *best_child = NULL;
     int max_count = -1;
 
@@ -270,7 +270,7 @@ static void predict_dg_fallback(vomm_node_t *node) {
 static void predict_global_frequency(void) {
     GHashTableIter ctx_iter, child_iter;
     gpointer ctx_key, ctx_value, child_key, child_value;
-    int total_global_count = 0;
+    gint64 total_global_count = 0;
     
     /* First pass: calculate total counts across all transitions */
     g_hash_table_iter_init(&ctx_iter, vomm_system.root->children);
-- 
2.43.0

