From e177023303ae43538d543f9c7763979d93e7726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 1/7] fix: don't abort when one check finds two kinds of breach

check_tables() and check_elements_present() report breaches with more
than one description, which tripped an assertion in set_result().
---
 src/oifitslib/oicheck.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..b01f52f 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -61,11 +61,17 @@ void init_check_result(oi_check_result *pResult)
 static void set_result(oi_check_result *pResult, oi_breach_level level,
                        const char *description, const char *location)
 {
+  char both[2 * FLEN_VALUE];
+
   if (level > pResult->level) pResult->level = level;
   if (pResult->description == NULL)
     pResult->description = g_string_chunk_insert(pResult->chunk, description);
-  else
-    g_assert_cmpstr(description, ==, pResult->description);
+  else if (strcmp(description, pResult->description) != 0)
+  {
+    /* different kind of breach found by same check */
+    g_snprintf(both, sizeof(both), "%s: %s", description, location);
+    location = both;
+  }
   if (++pResult->numBreach < MAX_REPORT)
   {
     pResult->location[pResult->numBreach - 1] =
-- 
2.43.0


From 75d0f9a99776558ef1b44fca45088c76bb2daa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 2/7] fix: report correct OI_INSPOL table number when ARRNAME
 missing

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index b01f52f..8a43d76 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -633,7 +633,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
@@ -747,7 +747,7 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     else
     {
       g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
+                 g_list_position(pOi->inspolList, link) + 1);
       set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
     }
     link = link->next;
-- 
2.43.0


From c3384ffb20c78286da6306927b5c83c408f3238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 3/7] fix: dup_oi_vis() copied RVISERR into IVISERR

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From 5ee0d6115621609a9d3d794205dc7e8f50791063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 4/7] fix: merged table names no longer clash with existing
 names

---
 src/oifitslib/oimerge.c | 55 +++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..7d90976 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -281,6 +281,7 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -306,12 +307,17 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         upgrade_oi_array(pOutTab);
         if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
+          /* Find name not used by any output table so far */
+          suffix = pOutput->numArray;
+          do
+          {
+            ++suffix;
+            /* Avoid truncation at FLEN_VALUE - 1 */
+            if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname, suffix);
+            else
+              g_snprintf(newName, FLEN_VALUE, "array%03d", suffix);
+          } while (g_hash_table_lookup(pOutput->arrayHash, newName) != NULL);
           g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
@@ -342,6 +348,7 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -368,13 +375,17 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
             NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
+          /* Find name not used by any output table so far */
+          suffix = pOutput->numWavelength;
+          do
+          {
+            ++suffix;
+            /* Avoid truncation at FLEN_VALUE - 1 */
+            if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname, suffix);
+            else
+              g_snprintf(newName, FLEN_VALUE, "ins%03d", suffix);
+          } while (g_hash_table_lookup(pOutput->wavelengthHash, newName) != NULL);
           g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
@@ -406,6 +417,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -428,12 +440,17 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
       pOutTab = dup_oi_corr(pInTab);
       if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
       {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
-        else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
+        /* Find name not used by any output table so far */
+        suffix = pOutput->numCorr;
+        do
+        {
+          ++suffix;
+          /* Avoid truncation at FLEN_VALUE - 1 */
+          if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname, suffix);
+          else
+            g_snprintf(newName, FLEN_VALUE, "ins%03d", suffix);
+        } while (g_hash_table_lookup(pOutput->corrHash, newName) != NULL);
         g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
       }
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
-- 
2.43.0


From e626291e416383d3b7bf523accc4f98ffbd81ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:39 +0000
Subject: [PATCH 5/7] fix: keep target categories when filtering by target

---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..a2bde98 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -625,6 +625,7 @@ void filter_oi_target(const oi_target *pInTargets,
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
     pOutTargets->ntarget = 0;
+    pOutTargets->usecategory = pInTargets->usecategory;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
       if (pInTargets->targ[i].target_id == pFilter->target_id)
-- 
2.43.0


From 6fcf5a2ae121513719a3659a3cbbccf72ca079c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:39 +0000
Subject: [PATCH 6/7] fix: keep target categories when merging

---
 src/oifitslib/oimerge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 7d90976..5d608e9 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -238,6 +238,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->ntarget = 0;
+  pOutTab->usecategory = FALSE;
   pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
@@ -246,6 +247,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     pInTab = &((oi_fits *)link->data)->targets;
     if (pInTab->revision > pOutTab->revision)
       pOutTab->revision = pInTab->revision;
+    if (pInTab->usecategory) pOutTab->usecategory = TRUE;
     for (i = 0; i < pInTab->ntarget; i++)
     {
       if (!g_hash_table_lookup(targetIdHash, pInTab->targ[i].target))
@@ -257,6 +259,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (!pInTab->usecategory)
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From 491819fb7dd83d07782eacb02d7048b1f39cfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:04 +0000
Subject: [PATCH 7/7] fix: merge no longer aborts when there are 100 or more
 targets

---
 src/oifitslib/oimerge.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 5d608e9..c8e2f9f 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,17 +229,21 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
+
+  /* Allow for all targets being uniquely named (and never allocate 0 bytes) */
+  maxTarget = 1;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->ntarget = 0;
   pOutTab->usecategory = FALSE;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  pOutTab->targ = chkmalloc(maxTarget * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -254,7 +258,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
-- 
2.43.0

